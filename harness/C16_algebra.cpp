// C16: operators, monoids and semirings over whole (8-bit) domains and over
// boundary alphabets of the wider ones.
#include "../mc/mc.hpp"
#include <graphblas/graphblas.hpp>
#include <cmath>
#include <limits>
using namespace mc;

template <class T> std::vector<T> const &domain()
{
    static std::vector<T> d = [] {
        std::vector<T> v;
        if constexpr (std::is_same_v<T, bool>) { v.push_back(false); v.push_back(true); }
        else if constexpr (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) v.push_back(static_cast<T>(i)); }
        else if constexpr (std::is_floating_point_v<T>)
        {
            using L = std::numeric_limits<T>;
            for (T x : {T(0), T(1), T(-1), T(0.5), T(-0.5), T(2), T(3), T(-7.25), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity()}) v.push_back(x);
        }
        else
        {
            using L = std::numeric_limits<T>;
            for (T x : {T(0), T(1), T(2), T(3), T(5), T(-1), T(-2), T(-7), T(100), L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2), T(L::max() / 2 + 1), T(127), T(128), T(255), T(256)}) v.push_back(x);
        }
        return v;
    }();
    return d;
}
template <class T> bool is_nan(T x) { if constexpr (std::is_floating_point_v<T>) return std::isnan(x); else return false; }
// equal results; two NaNs agree
template <class T> bool eq(T a, T b) { return a == b || (is_nan(a) && is_nan(b)); }

// wrap-around reference arithmetic, free of undefined behaviour
template <class T> T w_add(T a, T b) { if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) return static_cast<T>(static_cast<std::make_unsigned_t<T>>(a) + static_cast<std::make_unsigned_t<T>>(b)); else return a + b; }
template <class T> T w_sub(T a, T b) { if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) return static_cast<T>(static_cast<std::make_unsigned_t<T>>(a) - static_cast<std::make_unsigned_t<T>>(b)); else return a - b; }
template <class T> T w_mul(T a, T b) { if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) return static_cast<T>(uint64_t(a) * uint64_t(b)); else return a * b; }
template <class T> bool ovf(char op, T a, T b)
{
    if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && (sizeof(T) >= 4))
    {
        T r;
        return op == '+' ? __builtin_add_overflow(a, b, &r) : op == '-' ? __builtin_sub_overflow(a, b, &r) : __builtin_mul_overflow(a, b, &r);
    }
    return false;
}
#define EQ(what, got, want) do { auto g_ = (got); auto w_ = (want); MC_CHECK(eq(g_, decltype(g_)(w_)), what, "<", typeid(T).name(), "> of ", +a, " and ", +b, ": got ", +g_, " expected ", +w_); } while (0)

template <class T> void binary(Ctx &c)
{
    auto &D = domain<T>();
    T a = D[c.choose(int(D.size()))];
    MC_SAY("binary operators over ", typeid(T).name(), ", first operand ", +a, ", second operand: all ", D.size());
    for (T b : D)
    {
        bool la = a != 0, lb = b != 0;
        EQ("LogicalOr", grb::LogicalOr<T>()(a, b), T(la || lb));
        EQ("LogicalAnd", grb::LogicalAnd<T>()(a, b), T(la && lb));
        EQ("LogicalXor", grb::LogicalXor<T>()(a, b), T(la != lb));
        EQ("LogicalXnor", grb::LogicalXnor<T>()(a, b), T(la == lb));
        EQ("Equal", grb::Equal<T>()(a, b), a == b);
        EQ("NotEqual", grb::NotEqual<T>()(a, b), !(a == b));
        EQ("GreaterThan", grb::GreaterThan<T>()(a, b), b < a);
        EQ("LessThan", grb::LessThan<T>()(a, b), a < b);
        EQ("GreaterEqual", grb::GreaterEqual<T>()(a, b), !(a < b));
        EQ("LessEqual", grb::LessEqual<T>()(a, b), !(b < a));
        EQ("First", grb::First<T>()(a, b), a);
        EQ("Second", grb::Second<T>()(a, b), b);
        EQ("Min", grb::Min<T>()(a, b), b < a ? b : a);
        EQ("Max", grb::Max<T>()(a, b), a < b ? b : a);
        if constexpr (std::is_same_v<T, bool>)
        {
            EQ("Plus", grb::Plus<T>()(a, b), la || lb);
            EQ("Times", grb::Times<T>()(a, b), la && lb);
        }
        else
        {
            if (!ovf('+', a, b)) EQ("Plus", grb::Plus<T>()(a, b), w_add(a, b));
            if (!ovf('-', a, b)) EQ("Minus", grb::Minus<T>()(a, b), w_sub(a, b));
            if (!ovf('*', a, b) && !(sizeof(T) == 2)) EQ("Times", grb::Times<T>()(a, b), w_mul(a, b));
            bool divok = std::is_floating_point_v<T> || (b != 0 && !(std::is_signed_v<T> && sizeof(T) >= 4 && b == T(-1)));
            if (divok) EQ("Div", grb::Div<T>()(a, b), T(a / b));
        }
        if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
        {
            // bit by bit
            uint64_t o = 0, n = 0, x = 0, y = 0;
            for (int k = 0; k < int(8 * sizeof(T)); ++k)
            {
                bool p = (uint64_t(a) >> k) & 1, q = (uint64_t(b) >> k) & 1;
                o |= uint64_t(p || q) << k; n |= uint64_t(p && q) << k; x |= uint64_t(p != q) << k; y |= uint64_t(p == q) << k;
            }
            EQ("BitwiseOr", grb::BitwiseOr<T>()(a, b), T(o));
            EQ("BitwiseAnd", grb::BitwiseAnd<T>()(a, b), T(n));
            EQ("BitwiseXor", grb::BitwiseXor<T>()(a, b), T(x));
            EQ("BitwiseXnor", grb::BitwiseXnor<T>()(a, b), T(y));
        }
        // conversion happens on the result, to the third type
        EQ("Second<T,T,double>", (grb::Second<T, T, double>()(a, b)), double(b));
        EQ("First<T,T,double>", (grb::First<T, T, double>()(a, b)), double(a));
        EQ("LessThan<T,T,int>", (grb::LessThan<T, T, int>()(a, b)), int(a < b));
        EQ("Min<T,T,bool>", (grb::Min<T, T, bool>()(a, b)), (b < a ? b : a) != 0);
        // Second's result type is that of its second operand
        static_assert(std::is_same_v<decltype(grb::Second<int, double>()(1, 2.)), double>);
        static_assert(std::is_same_v<decltype(grb::First<int, double>()(1, 2.)), int>);
        static_assert(std::is_same_v<decltype(grb::Equal<int>()(1, 2)), bool>);
        step(20);
    }
}
template <class T> void unary(Ctx &c)
{
    auto &D = domain<T>();
    T a = D[c.choose(int(D.size()))], b = a;
    MC_SAY("unary operators over ", typeid(T).name(), " at ", +a);
    EQ("Identity", grb::Identity<T>()(a), a);
    EQ("Identity<T,double>", (grb::Identity<T, double>()(a)), double(a));
    EQ("LogicalNot", grb::LogicalNot<T>()(a), T(a == 0));
    if constexpr (!std::is_same_v<T, bool>)
    {
        bool lim = std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min();
        if (!lim) EQ("Abs", grb::Abs<T>()(a), T(a < 0 ? w_sub(T(0), a) : a));
        if (!lim) EQ("AdditiveInverse", grb::AdditiveInverse<T>()(a), w_sub(T(0), a));
        if (std::is_floating_point_v<T> || a != 0) EQ("MultiplicativeInverse", grb::MultiplicativeInverse<T>()(a), T(T(1) / a));
        if constexpr (std::is_integral_v<T>)
        {
            uint64_t n = 0;
            for (int k = 0; k < int(8 * sizeof(T)); ++k) n |= uint64_t(!((uint64_t(a) >> k) & 1)) << k;
            EQ("BitwiseNot", grb::BitwiseNot<T>()(a), T(n));
        }
    }
    else EQ("Abs", grb::Abs<T>()(a), a);
    step(6);
}
// commutative, associative, identity; values outside a domain where arithmetic
// would overflow (or lose floating-point bits) are left out
template <class T, class M, bool ASSOC = true> void monoid(Ctx &c, char const *nm, char op)
{
    auto &D = domain<T>();
    M m;
    T b0 = m.identity(), a = D[c.choose(int(D.size()))];
    MC_SAY("monoid ", nm, " over ", typeid(T).name(), " at ", +a, ", all pairs and triples");
    { T b = b0; EQ(std::string(nm) + " identity (right)", m(a, b), a); EQ(std::string(nm) + " identity (left)", m(b, a), a); }
    for (T b : D)
    {
        if (op && ovf(op, a, b)) continue;
        EQ(std::string(nm) + " commutes", m(a, b), m(b, a));
        if (!ASSOC) continue;
        T ab = m(a, b);
        for (T d : D)
        {
            if (op && (ovf(op, b, d) || ovf(op, ab, d))) continue;
            if (op && ovf(op, a, m(b, d))) continue;
            T l = m(ab, d), r = m(a, m(b, d));
            MC_CHECK(eq(l, r), nm, "<", typeid(T).name(), "> is not associative at ", +a, ",", +b, ",", +d, ": ", +l, " != ", +r);
        }
        step(D.size());
    }
}
// a semiring is its monoid and its operator; and the adaptors agree with it
template <class T, class SR, class FA, class FM> void semiring(Ctx &c, char const *nm, FA fa, FM fm, T zero, char oa, char om, bool distributes)
{
    auto &D = domain<T>();
    SR sr;
    auto mul = grb::multiply_op(sr);
    auto add = grb::add_monoid(sr);
    T a = D[c.choose(int(D.size()))];
    MC_SAY("semiring ", nm, " over ", typeid(T).name(), " at ", +a);
    { T b = zero; EQ(std::string(nm) + " zero", sr.zero(), zero); EQ("zero is neutral", sr.add(a, sr.zero()), a); EQ("zero is neutral", sr.add(sr.zero(), a), a); EQ("adaptor identity", add.identity(), zero); }
    for (T b : D)
    {
        if (!(oa && ovf(oa, a, b)))
        { EQ(std::string(nm) + " add", sr.add(a, b), T(fa(a, b))); EQ("add_monoid", add(a, b), T(fa(a, b))); }
        if (!(om && ovf(om, a, b)))
        { EQ(std::string(nm) + " mult", sr.mult(a, b), T(fm(a, b))); EQ("multiply_op", mul(a, b), T(fm(a, b))); }
        step(4);
        if (!distributes) continue;
        // over the 8-bit domains whose arithmetic stays exact
        for (T d : D)
        {
            auto small = [&](T x) { return int(x) >= -8 && int(x) <= 8; };
            if (!std::is_same_v<T, bool> && !(small(a) && small(b) && small(d))) continue;
            T l = sr.mult(a, sr.add(b, d)), r = sr.add(sr.mult(a, b), sr.mult(a, d));
            MC_CHECK(l == r, nm, " does not distribute at ", +a, ",", +b, ",", +d, ": ", +l, " != ", +r);
            T l2 = sr.mult(sr.add(b, d), a), r2 = sr.add(sr.mult(b, a), sr.mult(d, a));
            MC_CHECK(l2 == r2, nm, " does not distribute (right) at ", +a, ",", +b, ",", +d, ": ", +l2, " != ", +r2);
            step();
        }
    }
}
#define FOR_ALL_TYPES(X) X(bool) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(float) X(double)
#define X(T) MC_SCENARIO(binary_##T, 0) { binary<T>(c); } MC_SCENARIO(unary_##T, 0) { unary<T>(c); }
FOR_ALL_TYPES(X)
#undef X
template <class T> void all_monoids(Ctx &c)
{
    constexpr bool fl = std::is_floating_point_v<T>;
    int k = c.choose(4);
    if (k == 0) return monoid<T, grb::MinMonoid<T>>(c, "MinMonoid", 0);
    if (k == 1) return monoid<T, grb::MaxMonoid<T>>(c, "MaxMonoid", 0);
    if (k == 2) return monoid<T, grb::PlusMonoid<T>, !fl>(c, "PlusMonoid", '+');
    if (sizeof(T) == 2) throw Prune();
    return monoid<T, grb::TimesMonoid<T>, !fl>(c, "TimesMonoid", '*');
}
#define X(T) MC_SCENARIO(monoid_##T, 1) { all_monoids<T>(c); }
FOR_ALL_TYPES(X)
#undef X
MC_SCENARIO(monoid_logical, 1)
{
    switch (c.choose(4))
    {
    case 0: return monoid<bool, grb::LogicalOrMonoid<bool>>(c, "LogicalOr", 0);
    case 1: return monoid<bool, grb::LogicalAndMonoid<bool>>(c, "LogicalAnd", 0);
    case 2: return monoid<bool, grb::LogicalXorMonoid<bool>>(c, "LogicalXor", 0);
    default: return monoid<bool, grb::LogicalXnorMonoid<bool>>(c, "LogicalXnor", 0);
    }
}
template <class T> void all_semirings(Ctx &c)
{
    using L = std::numeric_limits<T>;
    constexpr bool sg = std::is_signed_v<T>, i8 = sizeof(T) == 1 && !std::is_same_v<T, bool>, bo = std::is_same_v<T, bool>;
    T mx = L::max(), mn = L::min();
    if constexpr (std::is_floating_point_v<T>) { mx = L::infinity(); mn = -L::infinity(); }
    auto pl = [](T a, T b) { if constexpr (bo) return a || b; else return w_add(a, b); };
    auto ti = [](T a, T b) { if constexpr (bo) return a && b; else return w_mul(a, b); };
    auto mi = [](T a, T b) { return b < a ? b : a; };
    auto ma = [](T a, T b) { return a < b ? b : a; };
    auto fi = [](T a, T) { return a; };
    auto se = [](T, T b) { return b; };
#define S(SR, fa, fm, z, oa, om, d) return semiring<T, grb::SR<T>>(c, #SR, fa, fm, z, oa, om, d)
    switch (c.choose(12))
    {
    case 0: S(ArithmeticSemiring, pl, ti, T(0), '+', '*', i8);
    case 1: S(MinPlusSemiring, mi, pl, mx, 0, '+', i8 && sg);
    case 2: S(MaxPlusSemiring, ma, pl, mn, 0, '+', i8 && sg);
    case 3: S(MinTimesSemiring, mi, ti, mx, 0, '*', i8 && !sg);
    case 4: S(MaxTimesSemiring, ma, ti, mn, 0, '*', i8 && !sg);
    case 5: S(MinMaxSemiring, mi, ma, mx, 0, 0, i8 || bo);
    case 6: S(MaxMinSemiring, ma, mi, mn, 0, 0, i8 || bo);
    case 7: S(PlusMinSemiring, pl, mi, T(0), '+', 0, false);
    case 8: S(MinFirstSemiring, mi, fi, mx, 0, 0, false);
    case 9: S(MinSecondSemiring, mi, se, mx, 0, 0, false);
    case 10: S(MaxFirstSemiring, ma, fi, mn, 0, 0, false);
    default: S(MaxSecondSemiring, ma, se, mn, 0, 0, false);
    }
}
#define X(T) MC_SCENARIO(semiring_##T, 1) { all_semirings<T>(c); }
FOR_ALL_TYPES(X)
#undef X
MC_SCENARIO(semiring_logical, 1)
{
    using T = bool;
    auto o = [](bool a, bool b) { return a || b; };
    auto n = [](bool a, bool b) { return a && b; };
    auto x = [](bool a, bool b) { return a != b; };
    auto e = [](bool a, bool b) { return a == b; };
    switch (c.choose(4))
    {
    case 0: S(LogicalSemiring, o, n, false, 0, 0, true);
    case 1: S(AndOrSemiring, n, o, true, 0, 0, true);
    case 2: S(XorAndSemiring, x, n, false, 0, 0, true);
    default: S(XnorOrSemiring, e, o, true, 0, 0, true);
    }
}
// numeric operands of the logical semirings count as their truth value
MC_SCENARIO(semiring_logical_numeric, 1)
{
    using T = int8_t;
    auto &D = domain<T>();
    int k = c.choose(4);
    T a = D[c.choose(int(D.size()))];
    MC_SAY("logical semiring ", k, " over int8 at ", +a);
    for (T b : D)
    {
        bool p = a != 0, q = b != 0;
        if (k == 0) { EQ("LogicalSemiring mult", grb::LogicalSemiring<T>().mult(a, b), T(p && q)); EQ("LogicalSemiring add", grb::LogicalSemiring<T>().add(a, b), T(p || q)); }
        if (k == 1) { EQ("AndOrSemiring mult", grb::AndOrSemiring<T>().mult(a, b), T(p || q)); EQ("AndOrSemiring add", grb::AndOrSemiring<T>().add(a, b), T(p && q)); }
        if (k == 2) { EQ("XorAndSemiring mult", grb::XorAndSemiring<T>().mult(a, b), T(p && q)); EQ("XorAndSemiring add", grb::XorAndSemiring<T>().add(a, b), T(p != q)); }
        if (k == 3) { EQ("XnorOrSemiring mult", grb::XnorOrSemiring<T>().mult(a, b), T(p || q)); EQ("XnorOrSemiring add", grb::XnorOrSemiring<T>().add(a, b), T(p == q)); }
        step(2);
    }
}
// mixed domains: operands keep their own types, the result is converted once
MC_SCENARIO(mixed, 1)
{
    using T = int;
    static double const av[] = {0, 0.5, -0.5, 2.75, -3.25, 100.5}, bv[] = {0, 0.25, 1.5, -2.5, 7};
    double x = av[c.choose(6)], y = bv[c.choose(5)];
    int8_t i = int8_t(10 * y);
    double a = x, b = y;
    MC_SAY("mixed ", x, " ", y, " ", +i);
    EQ("Plus<double,int8,float>", (grb::Plus<double, int8_t, float>()(x, i)), float(x + i));
    EQ("Times<double,double,int>", (grb::Times<double, double, int>()(x, y)), int(x * y));
    EQ("Minus<int8,double,double>", (grb::Minus<int8_t, double, double>()(i, x)), double(i - x));
    EQ("Arithmetic mult", (grb::ArithmeticSemiring<double, int8_t, float>().mult(x, i)), float(x * i));
    EQ("MinPlus mult", (grb::MinPlusSemiring<double, double, int>().mult(x, y)), int(x + y));
    EQ("MinSecond mult", (grb::MinSecondSemiring<int, double, double>().mult(3, y)), y);
    EQ("MinFirst mult", (grb::MinFirstSemiring<double, int, double>().mult(x, 3)), x);
    EQ("LogicalAnd<double,double,bool>", (grb::LogicalAnd<double, double, bool>()(x, y)), (x != 0 && y != 0));
    EQ("Power", grb::Power<double>()(y, 2.0), y * y);
    step(9);
}
