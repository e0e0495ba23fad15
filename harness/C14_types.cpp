// C14: mixed element types.  Inputs, operator, accumulator, mask and output all
// have different domains; every conversion happens where the API puts it.
#define FEWMASKS
#include "../mc/ops.hpp"
#ifndef PART
#define PART 0
#define CFG 0
#endif
using namespace ref;

template <class A1, class A2, class R> struct Acc3 {
    using first_argument_type = A1;
    using second_argument_type = A2;
    using result_type = R;
    R operator()(A1 c, A2 t) const { return static_cast<R>(3 * c - t + 1); }
};
template <class T> std::ostream &operator<<(std::ostream &o, Acc3<T, T, T> const &) { return o; }

#if CFG == 0     // fractions everywhere, narrowing operator
using AT_ = double; using BT_ = float; using CT_ = int; using MT_ = float; using ACC_ = Acc3<int, double, double>;
struct Un_ { float operator()(int a) const { return 7.5f - 3 * a; } };
struct Dom : IntDom { using SR = AsymSR<int, double, float>; using Bin = MulOp<int, double, float>; using Un = Un_; using Mon = grb::PlusMonoid<int>;
    using Scal = double; static constexpr double scal = 2.75; };
struct Val { static double A(int p, int) { return prime(p) + 0.75; } static double B(int p, int) { return prime(p + 7) + 0.5; }
    static double C(int p, int) { return 1000 + 100 * p; } static double M(int, int k) { return k == 1 ? 0.5 : 0; } };
#elif CFG == 1   // small integers against fractions: a temporary of A's type loses B
using AT_ = int8_t; using BT_ = double; using CT_ = double; using MT_ = int8_t; using ACC_ = Acc3<double, double, float>;
struct Un_ { double operator()(double a) const { return 7.25 - 3 * a; } };
struct Dom : IntDom { using SR = AsymSR<double, double, double>; using Bin = MulOp<double, double, double>; using Un = Un_; using Mon = grb::PlusMonoid<int>;
    using Scal = float; static constexpr float scal = 2.5f; };
struct Val { static double A(int p, int) { return prime(p) - 11; } static double B(int p, int) { return 300 + prime(p + 7) + 0.5; }
    static double C(int p, int) { return 1000.25 + 100 * p; } static double M(int, int k) { return k == 1 ? -1 : 0; } };
#elif CFG == 2   // wide unsigned values through a narrow output
using AT_ = bool; using BT_ = uint64_t; using CT_ = uint16_t; using MT_ = uint64_t; using ACC_ = Acc3<uint64_t, uint64_t, uint64_t>;
struct Un_ { uint64_t operator()(uint64_t a) const { return 7 * a + (uint64_t(1) << 40); } };
struct Dom : IntDom { using SR = AsymSR<uint64_t, uint64_t, uint64_t>; using Bin = MulOp<uint64_t, uint64_t, uint64_t>; using Un = Un_; using Mon = grb::PlusMonoid<uint64_t>;
    using Scal = uint32_t; static constexpr uint32_t scal = 70001; };
struct Val { static uint64_t A(int, int) { return 1; } static uint64_t B(int p, int) { return (uint64_t(1) << 33) + 70000 + prime(p); }
    static uint64_t C(int p, int) { return 1000 + 100 * p; } static uint64_t M(int, int k) { return k == 1 ? uint64_t(1) << 36 : 0; } };
#elif CFG == 3   // boolean results into numeric outputs, boolean outputs
using AT_ = double; using BT_ = int; using CT_ = float; using MT_ = bool; using ACC_ = Acc3<float, int, double>;
struct Un_ { bool operator()(double a) const { return a > 5; } };
template <class T> using OrLess_ = grb::LessThan<T>;
struct LessSR { using result_type = bool; using first_argument_type = double; using second_argument_type = double;
    bool add(bool a, bool b) const { return a != b; } bool mult(double a, double b) const { return a < b; } bool zero() const { return false; } };
struct Dom : IntDom { using SR = LessSR; using Bin = grb::LessThan<double>; using Un = Un_; using Mon = grb::MaxMonoid<float>;
    using Scal = double; static constexpr double scal = 7.25; };
struct Val { static double A(int p, int) { return prime(p) + 0.25; } static double B(int p, int) { return prime(3 - p % 4); }
    static double C(int p, int) { return 1000.5 + 100 * p; } static double M(int, int k) { return k == 1; } };
#else            // everything into a boolean output
using AT_ = int; using BT_ = int8_t; using CT_ = bool; using MT_ = double; using ACC_ = Acc3<bool, int, int>;
struct Un_ { int operator()(int a) const { return 3 - a; } };
struct Dom : IntDom { using SR = grb::ArithmeticSemiring<int>; using Bin = grb::Minus<int>; using Un = Un_; using Mon = grb::PlusMonoid<int>;
    using Scal = int; static constexpr int scal = 2; };
struct Val { static int A(int p, int) { return p % 3 * 2; } static int B(int p, int) { return p % 2 ? 2 : -1; }
    static int C(int p, int) { return p % 2; } static double M(int, int k) { return k == 1 ? 0.125 : 0; } };
#endif

template <class OP> void go(mc::Ctx &c, int m, int k, int n, int a, int cc)
{
    Fill f;
    f.a = a; f.b = a; f.c = cc; f.m = 0;
    sweep<OP, Dom, Val, CT_, MT_, AT_, BT_, ACC_>(c, m, k, n, f);
}
#define T(nm, OP, m, k, n, a, cc) MC_SCENARIO(nm, 8) { go<OP>(c, m, k, n, a, cc); }
#if PART == 0
T(mxm, OpMxm, 2, 2, 2, 2, 0)
T(mxm_alias_b, OpMxm, 1, 2, 2, 2, 2)
T(mxv, OpMxv, 2, 2, 1, 2, 2)
T(vxm, OpVxm, 2, 2, 1, 2, 2)
T(kron, OpKron, 11, 1, 22, 2, 0)
#elif PART == 1
T(addm, OpAddM, 2, 1, 2, 2, 0)
T(addm23, OpAddM, 2, 1, 3, 0, 0)
T(addv, OpAddV, 3, 1, 1, 2, 2)
T(multm, OpMultM, 2, 1, 2, 2, 0)
T(multm23, OpMultM, 2, 1, 3, 0, 0)
T(multv, OpMultV, 3, 1, 1, 2, 2)
T(red, OpRed, 2, 3, 1, 2, 2)
T(tr, OpTr, 2, 1, 3, 2, 0)
#elif PART == 2
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, 2, 1, 2, 2, 2)
T(am1, A1, 2, 1, 2, 2, 2)
T(am2, A2, 2, 1, 2, 2, 2)
T(av0, B0, 3, 1, 1, 2, 2)
T(av1, B1, 3, 1, 1, 2, 2)
T(av2, B2, 3, 1, 1, 2, 2)
#else
T(extv, OpExtV, 3, 3, 1, 2, 2)
T(extm, OpExtM, 2, 2, 2, 2, 0)
T(extc, OpExtC, 3, 2, 2, 2, 2)
T(asgv, OpAsgV, 3, 2, 1, 2, 2)
T(asgm, OpAsgM, 2, 22, 2, 2, 0)
T(asgm1, OpAsgM, 2, 12, 2, 2, 2)
T(asgcol, OpAsgCol, 3, 2, 2, 2, 0)
T(asgrow, OpAsgRow, 2, 2, 3, 2, 0)
T(asgcv, OpAsgCV, 3, 2, 1, 1, 2)
T(asgcm, OpAsgCM, 2, 12, 2, 1, 2)
#endif
// matrix / vector to scalar reductions
#if PART == 1
template <class A_, class V, class D> static void redscal(mc::Ctx &c)
{
    bool vec = c.flip(), acc = c.flip();

    Mat<A_> A(2, 2); Vec<A_> u(4);
    bool has = false; using TT = typename D::Mon::result_type; TT t{};
    typename D::Mon mon;
    t = mon.identity();
    for (int i = 0; i < 4; ++i)
        if (c.flip()) { A_ x = static_cast<A_>(V::A(i, 1)); A.set(i / 2, i % 2, x); u.set(i, x); has = true; t = mon(t, x); }
    CT_ val = static_cast<CT_>(V::C(1, 1)), exp = val;
    if (acc) { if (has || true) exp = static_cast<CT_>(ACC_()(val, t)); }
    else exp = static_cast<CT_>(t);
    auto gA = real(A);
    auto gu = real(u);
    MC_SAY("reduce to scalar ", vec ? "vec " : "mat ", vec ? show(u) : show(A), " val=", +val, " accum=", acc, " expected ", +exp);
    auto go = [&](auto a) {
        if (vec) grb::reduce(val, a, typename D::Mon(), gu);
        else grb::reduce(val, a, typename D::Mon(), gA);
    };
    if (acc) go(ACC_()); else go(grb::NoAccumulate());
    mc::step();
    MC_CHECK(val == exp, "reduce to scalar: got ", +val, " expected ", +exp);
}
MC_SCENARIO(redscalar, 3) { redscal<AT_, Val, Dom>(c); }
#endif
