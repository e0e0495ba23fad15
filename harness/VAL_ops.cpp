// Every operation over domains whose stored values are the awkward ones: the
// identities and annihilators of the semiring, stored zeros and falses, the
// extremes of the type, infinities, NaN and the two zeros.  Code that treats such a value as
// absent, skips it, or stops early at it must still give the defined result.
// WHICH selects the operations as in BIG_ops.cpp.
#define FEWMASKS
#include "../mc/ops.hpp"
#include <limits>
using namespace ref;
template <class T> using L = std::numeric_limits<T>;
template <class T> struct NegU { T operator()(T a) const { return static_cast<T>(-a); } };
template <class T> struct InvU { T operator()(T a) const { return 1 / a; } };
struct NotU { bool operator()(bool a) const { return !a; } };
template <class T> struct HalfU { T operator()(T a) const { return static_cast<T>(a / 2); } };

// booleans: or/and
struct DBool { using T = bool; using SR = grb::LogicalSemiring<bool>; using Bin = grb::LogicalXor<bool>; using Un = NotU;
    using Mon = grb::LogicalOrMonoid<bool>; using Scal = bool; static constexpr bool scal = true; using Acc = grb::LogicalAnd<bool>;
    static T v(int k) { return k == 1; } };
// min-plus with its zero stored
struct DMinPlus { using T = int; using SR = grb::MinPlusSemiring<int>; using Bin = grb::Min<int>; using Un = HalfU<int>;
    using Mon = grb::MinMonoid<int>; using Scal = int; static constexpr int scal = L<int>::max(); using Acc = grb::Second<int>;
    static T v(int k) { return k == 1 ? L<int>::max() : 0; }
    static T w(int k) { return k == 1 ? 0 : -1; } };
// max-times with infinities
struct DMaxInf { using T = double; using SR = grb::MaxMinSemiring<double>; using Bin = grb::Max<double>; using Un = NegU<double>;
    using Mon = grb::MaxMonoid<double>; using Scal = double; static constexpr double scal = -1; using Acc = grb::Min<double>;
    static T v(int k) { return k == 1 ? -L<double>::infinity() : L<double>::infinity(); } };
// arithmetic on bytes that wrap
struct DByte { using T = uint8_t; using SR = grb::ArithmeticSemiring<uint8_t>; using Bin = grb::Plus<uint8_t>; using Un = HalfU<uint8_t>;
    using Mon = grb::TimesMonoid<uint8_t>; using Scal = uint8_t; static constexpr uint8_t scal = 0; using Acc = grb::Minus<uint8_t>;
    static T v(int k) { return k == 1 ? 0 : k == 2 ? 1 : 255; } };
// NaN and signed zero
struct DNan { using T = float; using SR = grb::ArithmeticSemiring<float>; using Bin = grb::Times<float>; using Un = InvU<float>;
    using Mon = grb::PlusMonoid<float>; using Scal = float; static constexpr float scal = 0; using Acc = grb::Plus<float>;
    static T v(int k) { return k == 1 ? L<float>::quiet_NaN() : k == 2 ? 0.f : L<float>::infinity(); } };
// integers beyond the doubles
struct DWide { using T = int64_t; using SR = grb::MinSecondSemiring<int64_t>; using Bin = grb::Second<int64_t>; using Un = HalfU<int64_t>;
    using Mon = grb::MaxMonoid<int64_t>; using Scal = int64_t; static constexpr int64_t scal = L<int64_t>::min(); using Acc = grb::First<int64_t>;
    static T v(int k) { return k == 1 ? L<int64_t>::max() - 1 : k == 2 ? L<int64_t>::min() : 0; } };
struct DXor { using T = uint64_t; using SR = grb::MaxFirstSemiring<uint64_t>; using Bin = grb::NotEqual<uint64_t>; using Un = HalfU<uint64_t>;
    using Mon = grb::MinMonoid<uint64_t>; using Scal = uint64_t; static constexpr uint64_t scal = 1; using Acc = grb::Second<uint64_t>;
    static T v(int k) { return k == 1 ? 0 : (uint64_t(1) << 32); } };
// the two zeros: equal, and yet different values
template <class T, class U = T, class R = T> struct ZeroOp {
    T operator()(T a, T b) const { return (std::signbit(a) ? 2 : 1) + (std::signbit(b) ? 20 : 10) + (a == 0 ? 0 : 100) + (b == 0 ? 0 : 1000); }
};
GEN_GRAPHBLAS_SEMIRING(ZeroSR, grb::PlusMonoid, ZeroOp)
struct DZero { using T = double; using SR = ZeroSR<double>; using Bin = ZeroOp<double>; using Un = InvU<double>;
    using Mon = grb::PlusMonoid<double>; using Scal = double; static constexpr double scal = 0; using Acc = ZeroOp<double>;
    static T v(int k) { return k == 1 ? -0.0 : k == 2 ? 0.0 : -1; } };

template <class D, class = void> struct Vals {
    static typename D::T A(int, int k) { return D::v(k); }
    static typename D::T B(int, int k) { return D::v(k); }
    static typename D::T C(int, int k) { return D::v(k); }
    static typename D::T M(int, int k) { return D::v(k); }
};
template <class D> struct Vals<D, std::void_t<decltype(&D::w)>> {
    static typename D::T A(int, int k) { return D::v(k); }
    static typename D::T B(int, int k) { return D::w(k); }
    static typename D::T C(int, int k) { return D::v(k); }
    static typename D::T M(int, int k) { return D::v(k); }
};
// a, b, cc, m: options per cell of the inputs, output, mask (1: absent)
template <class OP, class D> void one(mc::Ctx &c, int m, int k, int n, int a, int b, int cc, int mm)
{
    Fill f;
    f.a = a; f.b = b; f.c = cc; f.m = mm;
    using T = typename D::T;
    signed_zeros = std::is_same_v<D, DZero>;
    sweep<OP, D, Vals<D>, T, T, T, T, typename D::Acc>(c, m, k, n, f);
}
#if WHICH == 7      // the sign of a sum of zeros is not specified
#define ZEROS(nm, OP, m, k, n, a, b, cc, mm)
#else
#define ZEROS(nm, OP, m, k, n, a, b, cc, mm)                                    \
    MC_SCENARIO(nm##_zero, 8) { one<OP, DZero>(c, m, k, n, a, b, cc, mm); }
#endif
#define EACH4(nm, OP, m, k, n, a, b, cc, mm)                                    \
    MC_SCENARIO(nm##_bool, 8) { one<OP, DBool>(c, m, k, n, a, b, cc, mm); }      \
    MC_SCENARIO(nm##_nan, 8) { one<OP, DNan>(c, m, k, n, a, b, cc, mm); }        \
    MC_SCENARIO(nm##_wide, 8) { one<OP, DWide>(c, m, k, n, a, b, cc, mm); }      \
    MC_SCENARIO(nm##_u64, 8) { one<OP, DXor>(c, m, k, n, a, b, cc, mm); }       \
    ZEROS(nm, OP, m, k, n, a, b, cc, mm)
#define EACH(nm, OP, m, k, n, a, b, cc, mm)                                     \
    EACH4(nm, OP, m, k, n, a, b, cc, mm)                                        \
    MC_SCENARIO(nm##_minplus, 8) { one<OP, DMinPlus>(c, m, k, n, a, b, cc, mm); } \
    MC_SCENARIO(nm##_maxinf, 8) { one<OP, DMaxInf>(c, m, k, n, a, b, cc, mm); }  \
    MC_SCENARIO(nm##_byte, 8) { one<OP, DByte>(c, m, k, n, a, b, cc, mm); }
#if WHICH == 1
EACH(m121, OpMxm, 1, 2, 1, 3, 3, 3, 3)
EACH(m112, OpMxm, 1, 1, 2, 3, 3, 0, 3)
EACH(m131, OpMxm, 1, 3, 1, 3, 3, 1, 1)
EACH(m222, OpMxm, 2, 2, 2, 2, 2, 0, 0)
#elif WHICH == 2
EACH(mv, OpMxv, 2, 2, 1, 3, 3, 0, 3)
EACH(vm, OpVxm, 2, 2, 1, 3, 3, 0, 3)
EACH(mv13, OpMxv, 1, 3, 1, 3, 3, 3, 3)
EACH(vm13, OpVxm, 1, 3, 1, 3, 3, 3, 3)
#elif WHICH == 3
EACH(addv, OpAddV, 2, 1, 1, 4, 4, 3, 3)
EACH(multv, OpMultV, 2, 1, 1, 4, 4, 3, 3)
EACH(addm, OpAddM, 2, 1, 2, 3, 2, 0, 0)
EACH(multm, OpMultM, 2, 1, 2, 3, 2, 0, 0)
EACH(addm12, OpAddM, 1, 1, 2, 3, 3, 3, 3)
EACH(multm12, OpMultM, 1, 1, 2, 3, 3, 3, 3)
#elif WHICH == 4
EACH4(extv, OpExtV, 2, 2, 1, 3, 1, 3, 3)
EACH4(extm, OpExtM, 2, 2, 2, 3, 1, 0, 0)
EACH4(extc, OpExtC, 2, 2, 2, 3, 1, 3, 3)
#elif WHICH == 5
EACH4(asgv, OpAsgV, 3, 2, 1, 3, 1, 3, 0)
EACH4(asgm, OpAsgM, 2, 12, 2, 3, 1, 3, 0)
EACH4(asgcol, OpAsgCol, 2, 2, 2, 3, 1, 0, 3)
EACH4(asgrow, OpAsgRow, 2, 2, 2, 3, 1, 0, 3)
EACH4(asgcv, OpAsgCV, 2, 2, 1, 1, 1, 4, 3)
EACH4(asgcm, OpAsgCM, 2, 12, 2, 1, 1, 3, 0)
#elif WHICH == 6
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
EACH(m0, A0, 2, 1, 2, 3, 1, 0, 3)
EACH(m1, A1, 2, 1, 2, 3, 1, 0, 3)
EACH(m2, A2, 2, 1, 2, 3, 1, 0, 3)
EACH(v0, B0, 2, 1, 1, 4, 1, 3, 3)
EACH(v1, B1, 2, 1, 1, 4, 1, 3, 3)
EACH(v2, B2, 2, 1, 1, 4, 1, 3, 3)
#elif WHICH == 7
EACH(rows, OpRed, 2, 2, 1, 4, 1, 3, 3)
EACH(rows3, OpRed, 1, 3, 1, 4, 1, 3, 3)
// scalar results; an empty container gives the identity
template <class D> void scalar(mc::Ctx &c)
{
    using T = typename D::T;
    bool vec = c.flip(), acc = c.flip();
    typename D::Mon mon;
    T t{}; bool has = false;
    auto A = choose_mat<T>(c, 2, 2, 4, [](int, int k) { return D::v(k); });
    Vec<T> u(4);
    for (int i = 0; i < 4; ++i)
    {
        u.e[i] = A.e[i / 2][i % 2];
        if (u.e[i].has) { t = has ? T(mon(t, u.e[i].v)) : u.e[i].v; has = true; }
    }
    if (!has) t = mon.identity();
    T x = D::v(1 + c.choose(2)), e = acc ? T(typename D::Acc()(x, t)) : t;
    MC_SAY("reduce to scalar ", show(u), " old ", +x, " accum=", acc, " expected ", +e);
    auto g = real(A); auto h = real(u);
    auto go = [&](auto a) { if (vec) grb::reduce(x, a, mon, h); else grb::reduce(x, a, mon, g); };
    if (acc) go(typename D::Acc()); else go(grb::NoAccumulate());
    mc::step();
    MC_CHECK(same_val(x, e), "reduce to scalar: got ", +x, " expected ", +e);
    expect(g, A, "input afterwards");
    expect(h, u, "input afterwards");
}
MC_SCENARIO(scalar_bool, 6) { scalar<DBool>(c); }
MC_SCENARIO(scalar_minplus, 6) { scalar<DMinPlus>(c); }
MC_SCENARIO(scalar_maxinf, 6) { scalar<DMaxInf>(c); }
MC_SCENARIO(scalar_byte, 6) { scalar<DByte>(c); }
MC_SCENARIO(scalar_nan, 6) { scalar<DNan>(c); }
MC_SCENARIO(scalar_wide, 6) { scalar<DWide>(c); }
MC_SCENARIO(scalar_u64, 6) { scalar<DXor>(c); }
#elif WHICH == 8
EACH(tr, OpTr, 2, 1, 2, 3, 1, 0, 3)
EACH(kron, OpKron, 12, 1, 12, 3, 3, 0, 0)
EACH(kron11, OpKron, 12, 1, 11, 3, 3, 3, 3)
#endif
