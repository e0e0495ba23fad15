// One backend's half of C15 (see C15_equiv.cpp).  PART selects the programs.
#define MC_NO_MAIN
#ifndef REF_MX
#define REF_MX 16
#endif
#if PART >= 6
#include "../mc/graph.hpp"
using namespace gr;
#else
#include "../mc/ops.hpp"
using namespace ref;
#endif
#include "C15_out.hpp"
using mc::Ctx;

struct Prog { std::string name; int depth; std::function<void(Ctx &, Out &)> f; };
static std::vector<Prog> &progs() { static std::vector<Prog> p; return p; }
struct AddProg { AddProg(std::string n, int d, std::function<void(Ctx &, Out &)> f) { progs().push_back({n, d, f}); } };
#define PROG(nm, depth) static void nm##_f(Ctx &, Out &); static AddProg nm##_r(#nm, depth, nm##_f); static void nm##_f(Ctx &c, Out &o)
extern "C" {
void side_init(bool t, bool v) { mc::thorough = t; mc::verbose = false; (void)v; }
int  side_count() { return int(progs().size()); }
char const *side_name(int i) { return progs()[i].name.c_str(); }
int  side_depth(int i) { return progs()[i].depth; }
void side_run(int i, Ctx &c, Out &o) { progs()[i].f(c, o); }
}

// ------------------------------------------------------------------ observing
template <class... A> void say(Out &o, A const &...a) { if (o.want) o.text += mc::cat(a...) + "\n"; }
template <class T> void one(Out &o, T const &v)
{
    if constexpr (std::is_floating_point_v<T>) { o.fp.push_back(double(v)); o.word(0x5e); }
    else o.word(uint64_t(int64_t(v)) * 2654435761u + 1);
}
template <class T> void see(Out &o, char const *what, grb::Matrix<T> const &A)
{
    o.word(A.nrows()); o.word(A.ncols()); o.word(A.nvals());
    Idx n = 0;
    for (Idx i = 0; i < A.nrows(); ++i) for (Idx j = 0; j < A.ncols(); ++j)
    {
        bool h = A.hasElement(i, j);
        o.word(h); n += h;
        if (h) one(o, A.extractElement(i, j));
    }
    if (A.nvals() == n && n > 0 && n <= 256)
    {
        // tuples as a set
        Idx r[256], s[256]; T v[256];
        A.extractTuples(r, s, v);
        uint64_t x = 0;
        for (Idx k = 0; k < n; ++k) x += (r[k] * 131 + s[k] + 7) * 1000003 ^ uint64_t(int64_t(double(v[k]) * 8));
        o.word(x);
    }
    ++o.n;
    say(o, "  ", what, " = ", ref::dump(A));
}
template <class T> void see(Out &o, char const *what, grb::Vector<T> const &A)
{
    o.word(A.size()); o.word(A.nvals());
    Idx n = 0;
    for (Idx i = 0; i < A.size(); ++i)
    {
        bool h = A.hasElement(i);
        o.word(h); n += h;
        if (h) one(o, A.extractElement(i));
    }
    if (A.nvals() == n && n > 0 && n <= 256)
    {
        Idx r[256]; T v[256];
        A.extractTuples(r, v);
        uint64_t x = 0;
        for (Idx k = 0; k < n; ++k) x += (r[k] * 131 + 7) * 1000003 ^ uint64_t(int64_t(double(v[k]) * 8));
        o.word(x);
    }
    ++o.n;
    say(o, "  ", what, " = ", ref::dumpv(A));
}
#if PART < 6
static void see(Out &, char const *, Nothing const &) {}
#endif
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> void see(Out &o, char const *what, T v) { one(o, v); ++o.n; say(o, "  ", what, " = ", +v); }
template <class F> void attempt(Out &o, char const *what, F f)
{
    char const *r = "";
    ++o.n;
    try { f(); }
    catch (mc::SkipPrefix const &) { throw; }
    catch (mc::Prune const &) { throw; }
    catch (grb::DimensionException const &) { r = "DimensionException"; }
    catch (grb::IndexOutOfBoundsException const &) { r = "IndexOutOfBoundsException"; }
    catch (grb::InvalidIndexException const &) { r = "InvalidIndexException"; }
    catch (grb::InvalidValueException const &) { r = "InvalidValueException"; }
    catch (grb::NoValueException const &) { r = "NoValueException"; }
    catch (grb::OutputNotEmptyException const &) { r = "OutputNotEmptyException"; }
    catch (grb::PanicException const &) { r = "PanicException"; }
    catch (std::exception const &e) { r = typeid(e).name(); }
    for (char const *p = r; *p; ++p) o.word(*p);
    o.word(99);
    if (*r) say(o, "  ", what, " threw ", r);
}

#if PART < 4
// ------------------------------------------------------- single operations
#if CFG
template <class A1, class A2, class R> struct Acc3 {
    using first_argument_type = A1; using second_argument_type = A2; using result_type = R;
    R operator()(A1 c, A2 t) const { return static_cast<R>(3 * c - t + 1); }
};
using AT_ = int8_t; using BT_ = double; using CT_ = double; using MT_ = float; using ACC_ = Acc3<double, double, float>;
struct Un_ { double operator()(double a) const { return 7.25 - 3 * a; } };
struct Dom : IntDom { using SR = AsymSR<double, double, double>; using Bin = MulOp<double, double, double>; using Un = Un_; using Mon = grb::PlusMonoid<int>;
    using Scal = float; static constexpr float scal = 2.5f; };
struct Val { static double A(int p, int) { return prime(p) - 11; } static double B(int p, int) { return 300 + prime(p + 7) + 0.5; }
    static double C(int p, int) { return 1000.25 + 100 * p; } static double M(int, int k) { return k == 1 ? 0.5 : 0; } };
#else
using AT_ = int; using BT_ = int; using CT_ = int; using MT_ = bool; using ACC_ = AccOp;
using Dom = IntDom; using Val = DefVal;
#endif
// delta > 0: one dimension of one argument is off by one, or one index is bad
template <class OP> void op(Ctx &c, Out &o, int m, int k, int n, Fill f, bool wrong)
{
    P    p;
    int  mk = mask_kinds[c.choose(n_mask_kinds)];
    bool acc = c.flip(), rep = c.flip();
    if (OP::TRA) p.ta = c.flip();
    if (OP::TRB) p.tb = c.flip();
    Sh   s = OP::shape(c, p, m, k, n);
    int  off = 0, by = 1;
    if (wrong)
    {
        off = 1 + c.choose(OP::SEQ ? 12 : 8);
        by = c.flip() ? -1 : 1;
        bool anyall = OP::SEQ && (p.kI == S_ALL || p.kJ == S_ALL);
        if (anyall) throw mc::Prune();
        if (off == 9) { if (p.I.size() < 1) throw mc::Prune(); p.kI = S_VEC; p.I.back() = by > 0 ? 7 : p.I[0]; }      // beyond the end; a repeat
        if (off == 10) { if (p.J.size() < 1) throw mc::Prune(); p.kJ = S_VEC; p.J.back() = by > 0 ? 7 : p.J[0]; }
        if (off == 11) { if (p.kI != S_VEC) throw mc::Prune(); if (by > 0) p.I.push_back(0); else if (p.I.size() > 1) p.I.pop_back(); }
        if (off == 12) { p.k += by > 0 ? 1 : 5; }
    }
    auto d = [&](int which, int x) { return std::max(1, off == which ? x + by : x); };
    auto A = mk_model<OP::A, AT_>(d(1, s.ar), d(2, s.ac));
    auto B = mk_model<OP::B, BT_>(d(3, s.br), d(4, s.bc));
    auto C = mk_model<OP::O, CT_>(d(5, s.cr), d(6, s.cc));
    auto M = mk_model<OP::M, MT_>(d(7, mask_r<OP>(s)), d(8, s.cc));
    A = fill(c, A, f.a, Val::A);
    B = fill(c, B, f.b, Val::B);
    C = fill(c, C, f.c, Val::C);
    if (mk != M_NONE) M = fill(c, M, f.m, Val::M);
    auto Ap = trm(A, p.ta); auto Bp = trm(B, p.tb);
    auto gA = real(Ap); auto gB = real(Bp); auto gC = real(C); auto gM = real(M);
    if (o.want)
        say(o, OP::name(), show(p, OP::SEQ), " A=", show(A), " B=", show(B), " C=", show(C), " mask=", mk_name(mk), " M=", show(M), " accum=", acc, " replace=", rep);
    attempt(o, OP::name(), [&] {
        if (acc) exec<OP, Dom>(p, mk, ACC_(), rep, gC, gM, gA, gB);
        else exec<OP, Dom>(p, mk, grb::NoAccumulate(), rep, gC, gM, gA, gB);
    });
    see(o, "C", gC); see(o, "A", gA); see(o, "B", gB); see(o, "M", gM);
}
static Fill F(int a, int b, int c, int m) { Fill f; f.a = a; f.b = b; f.c = c; f.m = m; return f; }
#define T(nm, OP, m, k, n, a, b, cc, mm) PROG(nm, 7) { op<OP>(c, o, m, k, n, F(a, b, cc, mm), false); }
#define W(nm, OP, m, k, n) PROG(nm##_wrong, 5) { op<OP>(c, o, m, k, n, F(0, 0, 0, 0), true); }
#if PART == 0
T(mxm, OpMxm, 2, 2, 2, 2, 2, 0, 0)
T(mxm_c, OpMxm, 2, 1, 2, 2, 2, 2, 0)
T(mxm_long, OpMxm, 1, 4, 2, 2, 0, 0, 0)
T(mxm_wide, OpMxm, 2, 2, 4, 2, 0, 0, 0)
T(mxm_tall, OpMxm, 4, 2, 1, 2, 2, 0, 0)
T(mxm_33, OpMxm, 3, 3, 3, 0, 2, mc::thorough ? 0 : 1, 0)
W(mxm, OpMxm, 2, 3, 2)
T(mxv, OpMxv, 2, 3, 1, 2, 2, 2, 3)
W(mxv, OpMxv, 2, 3, 1)
T(vxm, OpVxm, 2, 3, 1, 2, 2, 2, 3)
W(vxm, OpVxm, 2, 3, 1)
T(kron, OpKron, 22, 1, 12, 2, 2, 0, 0)
W(kron, OpKron, 12, 1, 21)
#elif PART == 1
T(addm, OpAddM, 2, 1, 2, 2, 2, 0, 0)
T(addm23, OpAddM, 2, 1, 3, 0, 2, 0, 0)
W(addm, OpAddM, 2, 1, 3)
T(multm, OpMultM, 2, 1, 2, 2, 2, 0, 0)
T(multm23, OpMultM, 2, 1, 3, 0, 2, 0, 0)
W(multm, OpMultM, 2, 1, 3)
T(addv, OpAddV, 3, 1, 1, 2, 2, 2, 3)
W(addv, OpAddV, 3, 1, 1)
T(multv, OpMultV, 3, 1, 1, 2, 2, 2, 3)
W(multv, OpMultV, 3, 1, 1)
#elif PART == 2
T(extv, OpExtV, 3, 3, 1, 2, 1, 0, 0)
W(extv, OpExtV, 2, 3, 1)
T(extm, OpExtM, 2, 2, 2, 2, 1, 0, 0)
W(extm, OpExtM, 2, 2, 1)
T(extc, OpExtC, 2, 3, 2, 2, 1, 0, 0)
W(extc, OpExtC, 2, 3, 2)
T(asgv, OpAsgV, 4, 2, 1, 2, 1, 2, 0)
W(asgv, OpAsgV, 3, 2, 1)
T(asgm, OpAsgM, 2, 22, 3, 2, 1, 0, 0)
W(asgm, OpAsgM, 3, 22, 2)
T(asgcol, OpAsgCol, 3, 2, 2, 2, 1, 2, 0)
W(asgcol, OpAsgCol, 3, 2, 2)
T(asgrow, OpAsgRow, 2, 2, 3, 2, 1, 2, 0)
W(asgrow, OpAsgRow, 2, 2, 3)
T(asgcv, OpAsgCV, 3, 3, 1, 1, 1, 2, 0)
W(asgcv, OpAsgCV, 3, 2, 1)
T(asgcm, OpAsgCM, 2, 22, 3, 1, 1, 0, 0)
W(asgcm, OpAsgCM, 3, 22, 2)
#else
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, 2, 1, 2, 2, 1, 2, 0)
T(am1, A1, 2, 1, 3, 2, 1, 0, 0)
T(am2, A2, 2, 1, 3, 2, 1, 0, 0)
T(av0, B0, 3, 1, 1, 2, 1, 2, 3)
T(av1, B1, 3, 1, 1, 2, 1, 2, 0)
T(av2, B2, 3, 1, 1, 2, 1, 2, 0)
W(am0, A0, 2, 1, 3) W(am1, A1, 2, 1, 3) W(am2, A2, 2, 1, 3)
W(av0, B0, 3, 1, 1) W(av1, B1, 3, 1, 1) W(av2, B2, 3, 1, 1)
T(red, OpRed, 3, 3, 1, 2, 1, 0, 0)
W(red, OpRed, 2, 3, 1)
T(tr, OpTr, 3, 1, 2, 2, 1, 2, 0)
W(tr, OpTr, 3, 1, 2)
// scalar reductions, with and without accumulation
PROG(reds, 4)
{
    int r = 1 + c.choose(3), n = 1 + c.choose(3), acc = c.choose(2);
    auto a = choose_mat<AT_>(c, r, n, r * n <= 6 ? 3 : 2, [](int p, int k) { return k == 2 ? 0 : prime(p) - 4; });
    auto v = fill(c, Vec<AT_>(n), 0, Val::A);
    auto A = real(a); auto V = real(v);
    CT_ s = 40; 
    if (o.want) say(o, "reduce to scalar A=", show(a), " v=", show(v), " accum ", acc);
    attempt(o, "reduce", [&] {
        if (acc) grb::reduce(s, ACC_(), grb::PlusMonoid<int>(), A); else grb::reduce(s, grb::NoAccumulate(), grb::PlusMonoid<int>(), A);
    });
    see(o, "s", s);
    attempt(o, "reduce", [&] { if (acc) grb::reduce(s, ACC_(), grb::MaxMonoid<int>(), V); else grb::reduce(s, grb::NoAccumulate(), grb::MaxMonoid<int>(), V); });
    see(o, "s", s); see(o, "A", A); see(o, "v", V);
}
#endif
#elif PART == 4
// ---------------------------------------------------------------- containers
// histories over one matrix and a copy, indices in and out of range
template <class T> void mhist(Ctx &c, Out &o, int len)
{
    int s = c.choose(3);
    int r = s == 0 ? 2 : s == 1 ? 1 : 2, n = s == 0 ? 2 : s == 1 ? 3 : 1;
    grb::Matrix<T> A(r, n), B(r, n);
    B.setElement(0, 0, T(9));
    for (int t = 0; t < len; ++t)
    {
        int k = c.choose(14);
        attempt(o, "member", [&] {
            switch (k)
            {
            case 0: say(o, "set 0,0"); A.setElement(0, 0, T(t + 2)); break;
            case 1: say(o, "set last"); A.setElement(r - 1, n - 1, T(t + 2)); break;
            case 2: say(o, "set 1,0"); A.setElement(1, 0, T(0)); break;
            case 3: say(o, "remove 0,0"); A.removeElement(0, 0); break;
            case 4: say(o, "remove last"); A.removeElement(r - 1, n - 1); break;
            case 5: say(o, "remove 2,0"); A.removeElement(2, 0); break;
            case 6: say(o, "clear"); A.clear(); break;
            case 7: { say(o, "build"); std::vector<Idx> i{1, 0, 1}, j{0, 0, 0}; std::vector<T> v{T(3), T(4), T(5)}; A.build(i, j, v, grb::Minus<T>()); break; }
            case 8: say(o, "resize 3x1"); A.resize(3, 1); r = 3; n = 1; break;
            case 9: say(o, "resize 1x2"); A.resize(1, 2); r = 1; n = 2; break;
            case 10: say(o, "copy from B"); A = B; r = int(A.nrows()); n = int(A.ncols()); break;
            case 11: say(o, "copy to B"); B = A; break;
            case 12: { say(o, "copy and compare"); grb::Matrix<T> D(A); see(o, "equal to B", D == B); see(o, "differs from B", D != B); break; }
            default: { say(o, "extract 0,1"); see(o, "value", A.extractElement(0, 1)); }
            }
        });
        see(o, "A", A); see(o, "B", B);
    }
}
PROG(mhist_i, 3) { mhist<int>(c, o, mc::thorough ? 5 : 4); }
PROG(mhist_b, 3) { mhist<bool>(c, o, 4); }
template <class T> void vhist(Ctx &c, Out &o, int len)
{
    int n = 1 + c.choose(3);
    grb::Vector<T> A(n), B(n);
    B.setElement(0, T(9));
    for (int t = 0; t < len; ++t)
    {
        int k = c.choose(15);
        attempt(o, "member", [&] {
            switch (k)
            {
            case 0: say(o, "set 0"); A.setElement(0, T(t + 2)); break;
            case 1: say(o, "set last"); A.setElement(n - 1, T(t + 2)); break;
            case 2: say(o, "set 1"); A.setElement(1, T(0)); break;
            case 3: say(o, "remove 0"); A.removeElement(0); break;
            case 4: say(o, "remove last"); A.removeElement(n - 1); break;
            case 5: say(o, "remove 3"); A.removeElement(3); break;
            case 6: say(o, "clear"); A.clear(); break;
            case 7: { say(o, "build"); std::vector<Idx> i{1, 0, 1}; std::vector<T> v{T(3), T(4), T(5)}; A.build(i, v, grb::Minus<T>()); break; }
            case 8: say(o, "resize 4"); A.resize(4); n = 4; break;
            case 9: say(o, "resize 1"); A.resize(1); n = 1; break;
            case 10: say(o, "copy from B"); A = B; n = int(A.size()); break;
            case 11: say(o, "copy to B"); B = A; break;
            case 12: { say(o, "copy and compare"); grb::Vector<T> D(A); see(o, "equal to B", D == B); see(o, "differs from B", D != B); break; }
            case 13: { say(o, "assign dense"); A = std::vector<T>(n, T(6)); break; }
            default: { say(o, "extract 1"); see(o, "value", A.extractElement(1)); }
            }
        });
        see(o, "A", A); see(o, "B", B);
    }
}
PROG(vhist_i, 3) { vhist<int>(c, o, mc::thorough ? 5 : 4); }
PROG(vhist_b, 3) { vhist<bool>(c, o, 4); }
// build from every short list of positions, also out of range
PROG(build, 3)
{
    int k = c.choose(5);
    std::vector<Idx> i, j; std::vector<int> v;
    for (int t = 0; t < k; ++t) { i.push_back(c.choose(3)); j.push_back(c.choose(t < 3 ? 3 : 2)); v.push_back(prime(t)); }
    if (o.want) say(o, "build 2x2 from ", ref::show(i), ref::show(j));
    grb::Matrix<int> A(2, 2); A.setElement(1, 1, 50);
    attempt(o, "build", [&] { A.build(i, j, v, grb::Minus<int>()); });
    see(o, "A", A);
    grb::Vector<int> w(2); w.setElement(1, 50);
    attempt(o, "build", [&] { w.build(i, v, grb::Minus<int>()); });
    see(o, "w", w);
    grb::Matrix<int> X(2, 2);
    attempt(o, "build", [&] { X.build(i.begin(), j.begin(), v.begin(), v.size()); });
    see(o, "X", X);
}
// construction and dense data
PROG(make, 3)
{
    int r = c.choose(4), n = c.choose(4);
    say(o, "construct ", r, "x", n);
    attempt(o, "Matrix(r,c)", [&] { if (r && n) { grb::Matrix<int> A(r, n); see(o, "A", A); } });
    attempt(o, "Vector(n)", [&] { grb::Vector<int> v(n); see(o, "v", v); });
    attempt(o, "Vector(n,x)", [&] { grb::Vector<int> v(Idx(n), 5); see(o, "v", v); });
    if (!r || !n) return;
    std::vector<std::vector<int>> d(r, std::vector<int>(n));
    for (auto &x : d) for (auto &y : x) y = c.choose(2) * 3;
    attempt(o, "Matrix(dense)", [&] { grb::Matrix<int> A(d); see(o, "A", A); });
    attempt(o, "Matrix(dense,zero)", [&] { grb::Matrix<int> A(d, 3); see(o, "A", A); });
    attempt(o, "Vector(dense)", [&] { grb::Vector<int> A(d[0]); see(o, "v", A); });
    attempt(o, "Vector(dense,zero)", [&] { grb::Vector<int> A(d[0], 3); see(o, "v", A); });
}
#elif PART == 5
// ------------------------------------------------------ programs of operations
// every sequence over a pool of three matrices and two vectors, freely aliased
static void step(Ctx &c, Out &o, grb::Matrix<int> *Ms, grb::Vector<int> *v)
{
    int k = c.choose(12), x = c.choose(2), y = c.choose(2), m = c.choose(3);
    auto &C = Ms[m == 2 ? x : 2], &A = Ms[x], &B = Ms[y];
    auto &w = v[m == 2 ? x : 1]; auto &u = v[y];
    auto const P = grb::Plus<int>(); auto const S = grb::ArithmeticSemiring<int>(); auto const NM = grb::NoMask(); auto const NA = grb::NoAccumulate();
    auto const st = grb::complement(grb::structure(Ms[0]));
    auto const sv = grb::structure(v[0]);
    say(o, "operation ", k, " on ", x, y, " variant ", m);
    attempt(o, "operation", [&] {
        switch (k)
        {
        case 0: if (m == 0) grb::mxm(C, st, P, S, A, grb::transpose(B)); else grb::mxm(C, NM, NA, S, A, B); break;
        case 1: if (m == 0) grb::mxm(C, B, NA, S, grb::transpose(A), B, grb::REPLACE); else grb::mxm(C, NM, P, S, grb::transpose(A), grb::transpose(B)); break;
        case 2: if (m == 0) grb::mxv(w, sv, P, S, A, u, grb::REPLACE); else grb::mxv(w, NM, NA, S, grb::transpose(A), u); break;
        case 3: if (m == 0) grb::vxm(w, u, NA, S, u, A); else grb::vxm(w, NM, P, S, u, grb::transpose(A)); break;
        case 4: if (m == 0) grb::eWiseAdd(C, A, NA, grb::Minus<int>(), A, B, grb::REPLACE); else grb::eWiseAdd(C, NM, NA, grb::Minus<int>(), A, grb::transpose(B)); break;
        case 5: if (m == 0) grb::eWiseMult(C, st, P, grb::Minus<int>(), A, B); else grb::eWiseMult(C, NM, NA, grb::Minus<int>(), A, B); break;
        case 6: if (m == 0) grb::eWiseAdd(w, sv, NA, grb::Minus<int>(), u, v[x]); else grb::eWiseMult(w, NM, P, grb::Minus<int>(), u, v[x]); break;
        case 7: { std::vector<Idx> I{1, 0}, J{0, 0}; if (m == 0) grb::extract(C, NM, NA, A, I, J); else grb::assign(C, NM, m == 1 ? grb::Plus<int>() : grb::Plus<int>(), B, I, std::vector<Idx>{1, 0}); break; }
        case 8: if (m == 0) grb::reduce(w, NM, P, grb::PlusMonoid<int>(), A); else { int s = 1; grb::reduce(s, P, grb::PlusMonoid<int>(), A); grb::assign(w, NM, NA, s, grb::AllIndices()); } break;
        case 9: if (m == 0) grb::apply(C, A, NA, grb::AdditiveInverse<int>(), B, grb::REPLACE); else grb::transpose(C, NM, NA, A); break;
        case 10: { if (m == 0) C.clear(); else if (m == 1) Ms[x].setElement(y, 1, 7); else Ms[x].removeElement(y, 0); break; }
        default: { if (m == 0) w.clear(); else if (m == 1) v[x].setElement(y, 3); else v[x].removeElement(y); }
        }
    });
    for (int i = 0; i < 3; ++i) { static char const *nm[] = {"M0", "M1", "M2"}; see(o, nm[i], Ms[i]); }
    see(o, "v0", v[0]); see(o, "v1", v[1]);
}
static void pool(Ctx &c, Out &o, int len)
{
    grb::Matrix<int> Ms[3] = {{2, 2}, {2, 2}, {2, 2}};
    grb::Vector<int> v[2] = {grb::Vector<int>(2), grb::Vector<int>(2)};
    Ms[0].setElement(0, 1, 2); Ms[0].setElement(1, 0, 3); Ms[1].setElement(0, 0, 5); Ms[1].setElement(0, 1, 0); Ms[1].setElement(1, 1, 7);
    v[0].setElement(1, 11); v[1].setElement(0, 13); v[1].setElement(1, 17);
    for (int i = 0; i < len; ++i) step(c, o, Ms, v);
}
PROG(pool1, 2) { pool(c, o, 1); }
PROG(pool2, 4) { pool(c, o, 2); }
PROG(pool3, 5) { pool(c, o, mc::thorough ? 3 : 2); }
#else
// ----------------------------------------------------------------- algorithms
#define TRY(x) attempt(o, #x, [&] { x; })
template <class T> void unweighted(Ctx &c, Out &o, G const &g)
{
    int n = g.n, s = c.choose(n);
    auto A = real(mat<T>(g));
    if (o.want) say(o, show(g), " from ", s);
    { grb::Vector<unsigned> p(n); TRY(algorithms::bfs(A, Idx(s), p)); see(o, "bfs", p); }
    { grb::Vector<Idx> p(n); TRY(algorithms::bfs_level(A, Idx(s), p)); see(o, "bfs_level", p); }
    { grb::Vector<Idx> p(n); TRY(algorithms::bfs_parent_appendixB3(p, A, Idx(s))); see(o, "bfs_parent_appendixB3", p); }
    { grb::Vector<Idx> p(n); TRY(algorithms::bfs_level_appendixB1(p, A, Idx(s))); see(o, "bfs_level_appendixB1", p); }
    { grb::Vector<Idx> p(n); TRY(algorithms::bfs_level_appendixB2(p, A, Idx(s))); see(o, "bfs_level_appendixB2", p); }
    grb::Vector<int> w(n); w.setElement(s, 1); w.setElement(n - 1, 1);
    { grb::Vector<unsigned> p(n); TRY(algorithms::bfs(A, w, p)); see(o, "bfs(roots)", p); }
    { grb::Vector<unsigned> p(n); TRY(algorithms::bfs_level_masked(A, w, p)); see(o, "bfs_level_masked", p); }
    { grb::Vector<unsigned> p(n); TRY(algorithms::bfs_level_masked_v2(A, w, p)); see(o, "bfs_level_masked_v2", p); }
    grb::Matrix<unsigned> W(2, n); W.setElement(0, s, 1); W.setElement(1, 0, 1);
    { grb::Matrix<unsigned> p(2, n); TRY(algorithms::bfs_batch(A, W, p)); see(o, "bfs_batch", p); }
    { grb::Matrix<unsigned> p(2, n); TRY(algorithms::bfs_level(A, W, p)); see(o, "bfs_level(roots)", p); }
    { grb::Matrix<unsigned> p(2, n); TRY(algorithms::batch_bfs_level_masked(A, W, p)); see(o, "batch_bfs_level_masked", p); }
    TRY(see(o, "vertex_degree", algorithms::vertex_degree(A, Idx(s))));
    TRY(see(o, "vertex_in_degree", algorithms::vertex_in_degree(A, Idx(s))));
    TRY(see(o, "vertex_out_degree", algorithms::vertex_out_degree(A, Idx(s))));
}
template <class T> void weighted(Ctx &c, Out &o, G const &g)
{
    int n = g.n, s = c.choose(n);
    auto m = mat<T>(g, [](int k) { return k == 1 ? 3 : k; });
    auto A = real(m);
    if (o.want) say(o, ref::show(m), " from ", s);
    { grb::Vector<T> v(n); v.setElement(s, 0); TRY(see(o, "returned", algorithms::sssp(A, v))); see(o, "sssp", v); }
    { grb::Vector<T> v(n); v.setElement(s, 0); TRY(see(o, "returned", algorithms::filtered_sssp(A, v))); see(o, "filtered_sssp", v); }
    for (int d = 1; d <= 4; d += 3) { grb::Vector<T> v(n); TRY(algorithms::sssp_delta_step(A, T(d), Idx(s), v)); see(o, "sssp_delta_step", v); }
    { grb::Matrix<T> v(2, n); v.setElement(0, s, 0); v.setElement(1, 0, 0); TRY(see(o, "returned", algorithms::batch_sssp(A, v))); see(o, "batch_sssp", v); }
    if (s == 0)
    {
        TRY(see(o, "apsp", algorithms::apsp(A)));
        { grb::Matrix<T> R(n, n); TRY(algorithms::graph_distance_matrix(A, R)); see(o, "graph_distance_matrix", R); }
        TRY(see(o, "graph_radius", algorithms::graph_radius(A)));
        TRY(see(o, "graph_diameter", algorithms::graph_diameter(A)));
    }
    { grb::Vector<T> v(n); TRY(algorithms::graph_distance(A, Idx(s), v)); see(o, "graph_distance", v); }
    TRY(see(o, "vertex_eccentricity", algorithms::vertex_eccentricity(A, Idx(s))));
    TRY(see(o, "closeness_centrality", algorithms::closeness_centrality(A, Idx(s))));
    for (int t = 0; t < n; ++t) if (t != s)
    {
        TRY(see(o, "maxflow_push_relabel", algorithms::maxflow_push_relabel(A, Idx(s), Idx(t))));
        TRY(see(o, "maxflow_ford_fulk", algorithms::maxflow_ford_fulk(A, Idx(s), Idx(t))));
    }
}
template <class T> void central(Ctx &c, Out &o, G const &g)
{
    int n = g.n;
    auto A = real(mat<T>(g));
    unsigned S = 1 + c.choose((1 << n) - 1);
    std::vector<Idx> src; for (int i = n - 1; i >= 0; --i) if (S >> i & 1) src.push_back(i);
    if (o.want) say(o, show(g), " sources ", ref::show(src));
    auto sv = [&](char const *what, auto const &v) { for (auto x : v) see(o, what, double(x)); };
    TRY(sv("batch", algorithms::vertex_betweenness_centrality_batch(A, src)));
    TRY(sv("batch_alt", algorithms::vertex_betweenness_centrality_batch_alt(A, src)));
    TRY(sv("batch_alt_trans", algorithms::vertex_betweenness_centrality_batch_alt_trans(A, src)));
    TRY(sv("batch_alt_trans_v2", algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(A, src)));
    TRY(sv("batch_old", algorithms::vertex_betweenness_centrality_batch_old(A, src)));
    { grb::Vector<double> b(n); TRY(algorithms::BC_update_appendixB5(b, A, src)); see(o, "BC_update_appendixB5", b); }
    { grb::Vector<double> b(n); TRY(algorithms::BC_appendixB4(b, A, src[0])); see(o, "BC_appendixB4", b); }
    if (S == 1)
    {
        TRY(sv("vertex_betweenness_centrality", algorithms::vertex_betweenness_centrality(A)));
        TRY(see(o, "edge_betweenness_centrality", algorithms::edge_betweenness_centrality(A)));
        for (int it = 1; it <= 5; it += 2) { grb::Vector<double> r(n); TRY((algorithms::page_rank<grb::Matrix<T>, double>(A, r, 0.85, 1e-30, unsigned(it)))); see(o, "page_rank", r); }
        // clustering; weights keep clear of rounding ties
        TRY(see(o, "peer_pressure_cluster_v2", [&] { grb::Matrix<bool> R = grb::scaled_identity<grb::Matrix<bool>>(n); algorithms::peer_pressure_cluster_v2(A, R, 4); return R; }()));
    }
}
template <class T> void undirected(Ctx &c, Out &o, G const &g)
{
    int n = g.n;
    auto m = mat<T>(g); auto A = real(m);
    G h = g; for (auto &r : h.w) for (auto &x : r) x = x != 0;
    Mat<T> ml(n, n), mu(n, n), mb = mat<T>(h);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (g.e(i, j)) (i > j ? ml : mu).set(i, j, 1);
    auto L = real(ml); auto U = real(mu); auto B = real(mb);
    if (o.want) say(o, ref::show(m));
    TRY(see(o, "triangle_count", algorithms::triangle_count(B)));
    TRY(see(o, "triangle_count_masked", algorithms::triangle_count_masked(L, U)));
    TRY(see(o, "triangle_count_masked(L)", algorithms::triangle_count_masked(L)));
    TRY(see(o, "triangle_count_masked_noT", algorithms::triangle_count_masked_noT(L)));
    TRY(see(o, "triangle_count_newGBTL", algorithms::triangle_count_newGBTL(L, U)));
    TRY(see(o, "triangle_count_appendixB7", algorithms::triangle_count_appendixB7(L)));
    for (int k = 2; k <= 4; ++k) TRY(see(o, "k_truss2", algorithms::k_truss2(B, Idx(k))));
    int e = g.edges() / 2, r = 0;
    if (e)
    {
        grb::Matrix<T> E(e, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g.e(i, j)) { E.setElement(r, i, 1); E.setElement(r, j, 1); ++r; }
        for (int k = 3; k <= 4; ++k) TRY(see(o, "k_truss", algorithms::k_truss(E, Idx(k))));
    }
    for (int s = 0; s < 3; ++s) { grb::Vector<bool> v(n); TRY(algorithms::mis(B, v, double(s))); see(o, "mis", v); }
    { grb::Vector<bool> v(n); TRY(algorithms::mis_appendixB6(v, B, 7)); see(o, "mis_appendixB6", v); }
    if (connected(g)) { grb::Vector<Idx> p(n); TRY(see(o, "mst weight", algorithms::mst(A, p))); see(o, "mst", p); }
    (void)c;
}
#if PART == 6
PROG(bfs3, 4) { auto g = choose_digraph(c, 3, true); unweighted<int>(c, o, g); }
PROG(bfs4, 6) { auto g = choose_digraph(c, 4, mc::thorough); unweighted<int>(c, o, g); }
PROG(bfs3d, 4) { auto g = choose_digraph(c, 3, true); unweighted<double>(c, o, g); }
PROG(w3, 4) { auto g = choose_digraph(c, 3, false, 3); weighted<int>(c, o, g); }
PROG(w3l, 4) { auto g = choose_digraph(c, 3, true, 2); weighted<double>(c, o, g); }
PROG(w4, 6) { auto g = choose_digraph(c, 4, false, 2); if (!mc::thorough && g.edges() % 3) throw mc::Prune(); weighted<int>(c, o, g); }
#else
PROG(c3, 4) { auto g = choose_digraph(c, 3, false); central<int>(c, o, g); }
PROG(c4, 6) { auto g = choose_digraph(c, 4, false); if (!mc::thorough && g.edges() % 4) throw mc::Prune(); central<double>(c, o, g); }
PROG(u4, 4) { auto g = choose_ugraph(c, 4, false, 4); undirected<int>(c, o, g); }
PROG(u5, 4) { auto g = choose_ugraph(c, 5, false, 2); undirected<unsigned>(c, o, g); }
PROG(u6, 6) { if (!mc::thorough) { if (c.choose(2)) throw mc::Prune(); auto g = choose_ugraph(c, 5, false, 2); undirected<double>(c, o, g); return; } auto g = choose_ugraph(c, 6, false, 2); undirected<int>(c, o, g); }
#endif
#endif
