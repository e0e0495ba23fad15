// C13: a call either performs the operation or throws the documented exception
// and leaves every object as it was.  All combinations of (independent) shapes,
// sequence lengths, index values (including out of range) and positions.
#include "../mc/ops.hpp"
#ifndef PART
#define PART 0
#endif
using namespace ref;

struct Dim { int cr = 1, cc = 1, mr = 1, mc = 1, ar = 1, ac = 1, br = 1, bc = 1; };
struct Bad { bool dim = false, idx = false, pos = false, undef = false; bool any() const { return dim || idx || pos; } };

static bool outside(std::vector<Idx> const &v, int kind, int lim)
{
    if (kind == S_ALL) return false;
    for (auto x : v) if (x >= Idx(lim)) return true;
    return false;
}
static bool dup(std::vector<Idx> v)
{
    std::sort(v.begin(), v.end());
    return std::adjacent_find(v.begin(), v.end()) != v.end();
}
// free index sequence: length 0..maxlen, values 0..lim (lim itself is outside)
static void free_seq(mc::Ctx &c, std::vector<Idx> &v, int &kind, int maxlen, int lim)
{
    kind = c.choose(3);
    v.clear();
    if (kind == S_ALL) return;
    int n = c.choose(maxlen + 1);
    if (kind == S_RANGE)
    {
        int lo = n ? c.choose(lim + 1) : 0;
        for (int i = 0; i < n; ++i) v.push_back(lo + i);
        return;
    }
    for (int i = 0; i < n; ++i) v.push_back(c.choose(lim + 1));
}
// resolve All for the model
static void resolve(std::vector<Idx> &v, int kind, int n)
{
    if (kind != S_ALL) return;
    v.clear();
    for (int i = 0; i < n; ++i) v.push_back(i);
}

template <class OP> constexpr bool is_ext = std::is_same_v<OP, OpExtV> || std::is_same_v<OP, OpExtM> || std::is_same_v<OP, OpExtC>;

// what is wrong with this call; also resolves AllIndices in p
template <class OP> Bad judge(Dim const &d, P &p, bool masked)
{
    Bad b;
    auto need = [&](bool x) { if (!x) b.dim = true; };
    if constexpr (OP::O == 'm' && OP::M == 'm') { if (masked) need(d.cr == d.mr && d.cc == d.mc); }
    else if constexpr (OP::O == 'v') { if (masked) need(d.cr == d.mr); }
    if constexpr (std::is_same_v<OP, OpMxm>) { need(d.cr == d.ar); need(d.cc == d.bc); need(d.ac == d.br); }
    else if constexpr (std::is_same_v<OP, OpMxv>) { need(d.cr == d.ar); need(d.ac == d.br); }
    else if constexpr (std::is_same_v<OP, OpVxm>) { need(d.cr == d.bc); need(d.ar == d.br); }
    else if constexpr (std::is_same_v<OP, OpRed>) { need(d.cr == d.ar); }
    else if constexpr (std::is_same_v<OP, OpTr>) { need(d.cr == d.ac && d.cc == d.ar); }
    else if constexpr (std::is_same_v<OP, OpKron>) { need(d.cr == d.ar * d.br && d.cc == d.ac * d.bc); }
    else if constexpr (std::is_same_v<OP, OpExtV>)
    {
        if (p.kI == S_ALL) b.undef = d.cr != d.ar; else need(int(p.I.size()) == d.cr);
        b.idx = outside(p.I, p.kI, d.ar);
        resolve(p.I, p.kI, d.cr);
    }
    else if constexpr (std::is_same_v<OP, OpExtM>)
    {
        if (p.kI == S_ALL) b.undef = d.cr != d.ar; else need(int(p.I.size()) == d.cr);
        if (p.kJ == S_ALL) b.undef = b.undef || d.cc != d.ac; else need(int(p.J.size()) == d.cc);
        b.idx = outside(p.I, p.kI, d.ar) || outside(p.J, p.kJ, d.ac);
        resolve(p.I, p.kI, d.cr);
        resolve(p.J, p.kJ, d.cc);
    }
    else if constexpr (std::is_same_v<OP, OpExtC>)
    {
        if (p.kI == S_ALL) b.undef = d.cr != d.ar; else need(int(p.I.size()) == d.cr);
        b.idx = outside(p.I, p.kI, d.ar);
        b.pos = p.k >= Idx(d.ac);
        resolve(p.I, p.kI, d.cr);
    }
    else if constexpr (std::is_same_v<OP, OpAsgV>)
    {
        if (p.kI == S_ALL) { need(d.ar <= d.cr); b.undef = d.ar < d.cr; } else need(int(p.I.size()) == d.ar);
        b.idx = outside(p.I, p.kI, d.cr);
        resolve(p.I, p.kI, d.ar);
        b.undef = b.undef || dup(p.I);
    }
    else if constexpr (std::is_same_v<OP, OpAsgM>)
    {
        if (p.kI == S_ALL) { need(d.ar <= d.cr); b.undef = d.ar < d.cr; } else need(int(p.I.size()) == d.ar);
        if (p.kJ == S_ALL) { need(d.ac <= d.cc); b.undef = b.undef || d.ac < d.cc; } else need(int(p.J.size()) == d.ac);
        b.idx = outside(p.I, p.kI, d.cr) || outside(p.J, p.kJ, d.cc);
        resolve(p.I, p.kI, d.ar);
        resolve(p.J, p.kJ, d.ac);
        b.undef = b.undef || dup(p.I) || dup(p.J);
    }
    else if constexpr (std::is_same_v<OP, OpAsgCol>)
    {
        if (masked) need(d.mr == d.cr);
        if (p.kI == S_ALL) { need(d.ar <= d.cr); b.undef = d.ar < d.cr; } else need(int(p.I.size()) == d.ar);
        b.idx = outside(p.I, p.kI, d.cr);
        b.pos = p.k >= Idx(d.cc);
        resolve(p.I, p.kI, d.ar);
        b.undef = b.undef || dup(p.I);
    }
    else if constexpr (std::is_same_v<OP, OpAsgRow>)
    {
        if (masked) need(d.mr == d.cc);
        if (p.kI == S_ALL) { need(d.ar <= d.cc); b.undef = d.ar < d.cc; } else need(int(p.I.size()) == d.ar);
        b.idx = outside(p.I, p.kI, d.cc);
        b.pos = p.k >= Idx(d.cr);
        resolve(p.I, p.kI, d.ar);
        b.undef = b.undef || dup(p.I);
    }
    else if constexpr (std::is_same_v<OP, OpAsgCV>)
    {
        if (p.kI != S_ALL) need(int(p.I.size()) <= d.cr);
        b.idx = outside(p.I, p.kI, d.cr);
        resolve(p.I, p.kI, d.cr);
    }
    else if constexpr (std::is_same_v<OP, OpAsgCM>)
    {
        if (p.kI != S_ALL) need(int(p.I.size()) <= d.cr);
        if (p.kJ != S_ALL) need(int(p.J.size()) <= d.cc);
        b.idx = outside(p.I, p.kI, d.cr) || outside(p.J, p.kJ, d.cc);
        resolve(p.I, p.kI, d.cr);
        resolve(p.J, p.kJ, d.cc);
    }
    else   // element-wise and apply: everything has the output's shape
    {
        if constexpr (OP::A == 'm') need(d.cr == d.ar && d.cc == d.ac); else need(d.cr == d.ar);
        if constexpr (OP::B == 'm') need(d.cr == d.br && d.cc == d.bc);
        if constexpr (OP::B == 'v') need(d.cr == d.br);
    }
    return b;
}

#ifdef TEXT
#include "C28_text.hpp"
#endif
// maxd: largest dimension; sl: largest sequence length
template <class OP> void attempt(mc::Ctx &c, int maxd, int sl)
{
    Dim d;
    auto dim = [&](char k, int &r, int &cc, int m) {
        if (k != 'n') r = 1 + c.choose(m);
        if (k == 'm') cc = 1 + c.choose(m);
    };
#ifdef TEXT
    int  mk = c.choose(2);
    bool acc = false, rep = false;
#else
    int  mk = c.choose(mc::thorough ? 5 : 3);
    bool acc = c.flip(), rep = c.flip();
#endif
    P    p;
    dim(OP::O, d.cr, d.cc, std::is_same_v<OP, OpKron> ? 4 : maxd);
    dim(OP::A, d.ar, d.ac, maxd);
    dim(OP::B, d.br, d.bc, maxd);
    if (mk != M_NONE)
    {
        // the mask: of the right shape, or off by one in one direction
        int er = d.cr, ec = d.cc;
        if constexpr (std::is_same_v<OP, OpAsgRow>) er = d.cc;
        int w = c.choose(OP::M == 'm' ? 5 : 3);
        d.mr = er + (w == 1) - (w == 2);
        d.mc = ec + (w == 3) - (w == 4);
        if (d.mr < 1 || d.mc < 1) throw mc::Prune();
    }
    if (OP::TRA) p.ta = c.flip();
    if (OP::TRB) p.tb = c.flip();
    if constexpr (OP::SEQ)
    {
        bool in = is_ext<OP>;
        int  l1 = in ? d.ar : std::is_same_v<OP, OpAsgRow> ? d.cc : d.cr;
        free_seq(c, p.I, p.kI, sl, l1);
        if constexpr (std::is_same_v<OP, OpExtM> || std::is_same_v<OP, OpAsgM> || std::is_same_v<OP, OpAsgCM>)
            free_seq(c, p.J, p.kJ, sl, in ? d.ac : d.cc);
        if constexpr (std::is_same_v<OP, OpExtC>) p.k = c.choose(d.ac + 1);
        if constexpr (std::is_same_v<OP, OpAsgCol>) p.k = c.choose(d.cc + 1);
        if constexpr (std::is_same_v<OP, OpAsgRow>) p.k = c.choose(d.cr + 1);
    }
    P   call = p;
    Bad bad = judge<OP>(d, p, mk != M_NONE);
    if (bad.undef && !bad.any()) { ++c.pruned; }
#ifdef TEXT
    if (!bad.any()) throw mc::Prune();
    int  pat = 0;
#else
    int  pat = c.choose(2);
#endif
    auto put = [&](auto m, auto f) {
        using T = decltype(m);
        if constexpr (!std::is_same_v<T, Nothing>)
        {
            if constexpr (std::is_same_v<T, Vec<typename T::S>>)
            { for (int i = 0; i < m.n; ++i) if (!pat || i % 2 == 0) m.set(i, f(i, 1)); }
            else
            { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (!pat || (i + j) % 2 == 0) m.set(i, j, f(i * m.c + j, 1)); }
        }
        return m;
    };
    auto A = put(mk_model<OP::A, int>(d.ar, d.ac), DefVal::A);
    auto B = put(mk_model<OP::B, int>(d.br, d.bc), DefVal::B);
    auto C = put(mk_model<OP::O, int>(d.cr, d.cc), DefVal::C);
    auto M = put(mk_model<OP::M, bool>(d.mr, d.mc), DefVal::M);
    auto Ap = trm(A, p.ta);
    auto Bp = trm(B, p.tb);
    auto gA = real(Ap);
    auto gB = real(Bp);
    auto gC = real(C);
    auto gM = real(M);
    auto E = C;
    char const *thrown = nullptr;
    auto go = [&](auto a) {
        if (!bad.any() && !bad.undef) model<OP, IntDom>(p, mk, a, rep, E, M, A, B);
        MC_SAY(OP::name(), show(call, OP::SEQ), " A=", show(A), " B=", show(B), " C=", show(C), " mask=", mk_name(mk), " M=", show(M),
               " accum=", acc, " replace=", rep, " wrong:", bad.dim ? " shapes" : "", bad.idx ? " index" : "", bad.pos ? " position" : "",
               bad.undef ? " (outside the specification)" : "", " expected ", show(E));
#ifdef TEXT
        check_text<OP>([&] { exec<OP, IntDom>(call, mk, a, rep, gC, gM, gA, gB); }, d, call);
#else
        try { exec<OP, IntDom>(call, mk, a, rep, gC, gM, gA, gB); }
        catch (grb::DimensionException const &) { thrown = "DimensionException"; MC_CHECK(bad.dim || bad.undef, OP::name(), ": unexpected DimensionException"); }
        catch (grb::IndexOutOfBoundsException const &) { thrown = "IndexOutOfBounds"; MC_CHECK(bad.idx || bad.undef, OP::name(), ": unexpected IndexOutOfBoundsException"); }
        catch (grb::InvalidIndexException const &) { thrown = "InvalidIndex"; MC_CHECK(bad.pos || bad.undef, OP::name(), ": unexpected InvalidIndexException"); }
#endif
    };
    if (acc) go(AccOp()); else go(grb::NoAccumulate());
    mc::step();
#ifdef TEXT
    return;
#endif
    if (bad.any()) MC_CHECK(thrown, OP::name(), ": a call that must be refused was accepted");
    expect(gA, Ap, "first input afterwards");
    expect(gB, Bp, "second input afterwards");
    if (mk != M_NONE) expect(gM, M, "mask afterwards");
    if (thrown || !bad.undef) expect(gC, E, thrown ? "output after the refused call" : OP::name());
}
#define T(nm, OP, md, sl) MC_SCENARIO(nm, 8) { attempt<OP>(c, md, sl); }
#define TM(k) (mc::thorough ? (k) + 1 : (k))
#if PART == 0
T(mxm, OpMxm, 2, 0)
T(mxv, OpMxv, TM(2), 0)
T(vxm, OpVxm, TM(2), 0)
T(kron, OpKron, 2, 0)
T(tr, OpTr, TM(2), 0)
T(red, OpRed, TM(2), 0)
#elif PART == 1
T(addm, OpAddM, 2, 0)
T(multm, OpMultM, 2, 0)
T(addv, OpAddV, TM(2), 0)
T(multv, OpMultV, TM(2), 0)
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, TM(2), 0)
T(am1, A1, TM(2), 0)
T(am2, A2, TM(2), 0)
T(av0, B0, 3, 0)
T(av1, B1, 3, 0)
T(av2, B2, 3, 0)
#elif PART == 2
T(extv, OpExtV, 3, 3)
T(extm, OpExtM, 2, 2)
T(extc, OpExtC, 2, TM(2))
#elif PART == 3
T(asgv, OpAsgV, 3, 3)
T(asgm, OpAsgM, 2, 2)
#elif PART == 4
T(asgcol, OpAsgCol, TM(2), TM(2))
T(asgrow, OpAsgRow, TM(2), TM(2))
T(asgcv, OpAsgCV, 3, 4)
T(asgcm, OpAsgCM, 2, 3)
#endif
