// operators, monoids, semirings; matrix utilities; index ranges
#include "alg.hpp"
using namespace alg;
using namespace grb;

template <typename T> static T val(long long x) { return std::is_floating_point_v<T> ? T(double(x) / 16) : T(x); }
template <typename T> static long long back(T x) { return std::is_floating_point_v<T> ? std::llround(double(x) * 16) : (long long)x; }
static long long back(bool x) { return x; }
// values at the limits: [band, off]
template <typename T> static T lim(Val const &v)
{
    using L = std::numeric_limits<T>;
    long long b = v.a.at(0).i, o = v.a.at(1).i;
    if constexpr (std::is_floating_point_v<T>)
        return b == 2 ? L::infinity() : b == -2 ? -L::infinity() : b == 1 ? L::max() : b == -1 ? L::lowest() : T(o);
    else return b == 1 ? T(L::max() + o) : b == -1 ? T(L::min() + o) : T(o);
}
template <typename T> static Val unlim(T x)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_same_v<T, bool>) return js::nums({0, x});
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (std::isinf(x)) return js::nums({x > 0 ? 2 : -2, 0});
        if (x == L::max()) return js::nums({1, 0});
        if (x == L::lowest()) return js::nums({-1, 0});
        if (x >= -1000 && x <= 1000 && x == std::floor(x)) return js::nums({0, (long long)x});
        return js::nums({9, 9});
    }
    else
    {
        if constexpr (sizeof(T) > 1)
        {
            if (x <= T(1000) && (!std::is_signed_v<T> || x >= T(-1000))) return js::nums({0, (long long)x});
            if (T(L::max() - 1000) <= x) return js::nums({1, -(long long)(T(L::max() - x))});
            if (std::is_signed_v<T> && x <= T(L::min() + 1000)) return js::nums({-1, (long long)(x - L::min())});
        }
        return js::nums({9, 9});
    }
}
template <typename T, typename Op> static void un(Val const &c, Val &out, Op op)
{
    std::vector<long long> r;
    for (auto x : c.nums("xs")) r.push_back(back(op(val<T>(x))));
    out.set("v", js::nums(r));
}
template <typename T, typename Op> static void bin(Val const &c, Val &out, Op op)
{
    std::vector<long long> r; T a = val<T>(c.num("a"));
    for (auto x : c.nums("bs")) r.push_back(back(op(a, val<T>(x))));
    out.set("v", js::nums(r));
}
template <typename T, typename Op> static void limun(Val const &c, Val &out, Op op)
{
    Val r = Val::arr();
    for (auto const &x : c.at("xs").a) r.a.push_back(unlim(op(lim<T>(x))));
    out.set("v", r);
}
template <typename T, typename Op> static void limbin(Val const &c, Val &out, Op op)
{
    Val r = Val::arr(); T a = lim<T>(c.at("a"));
    for (auto const &x : c.at("bs").a) r.a.push_back(unlim(op(a, lim<T>(x))));
    out.set("v", r);
}
#define UNARY(M) M(Identity) M(Abs) M(AdditiveInverse) M(LogicalNot)
#define BINARY(M) M(LogicalOr) M(LogicalAnd) M(LogicalXor) M(LogicalXnor) M(Equal) M(NotEqual) M(GreaterThan) M(LessThan) \
    M(GreaterEqual) M(LessEqual) M(First) M(Second) M(Min) M(Max)
#define ARITH(M) M(Plus) M(Minus) M(Times) M(Div) M(Power)
#define BITS(M) M(BitwiseOr) M(BitwiseAnd) M(BitwiseXor) M(BitwiseXnor)

template <typename T> static void do_un(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define UO(N) if (f == #N) return un<T>(c, out, N<T>());
    UNARY(UO) UO(MultiplicativeInverse)
    if constexpr (std::is_integral_v<T>) { UO(BitwiseNot) }
}
template <typename T> static void do_bin(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define B(N) if (f == #N) return bin<T>(c, out, N<T>());
    BINARY(B) ARITH(B)
    if constexpr (std::is_integral_v<T>) { BITS(B) }
}
template <typename T> static void do_limun(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define LU(N) if (f == #N) return limun<T>(c, out, N<T>());
    UNARY(LU)
    if constexpr (std::is_integral_v<T>) { LU(BitwiseNot) }
}
template <typename T> static void do_limbin(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define LB(N) if (f == #N) return limbin<T>(c, out, N<T>());
    BINARY(LB)
}
template <typename T, typename M> static void mon(Val const &c, Val &out, M m)
{
    std::vector<long long> l, r, v, w; T a = val<T>(c.num("a"));
    for (auto x : c.nums("xs"))
    {
        T y = val<T>(x);
        l.push_back(back(m(m.identity(), y))); r.push_back(back(m(y, m.identity())));
        v.push_back(back(m(a, y))); w.push_back(back(m(y, a)));
    }
    out.set("id", one(back(m.identity()))).set("l", js::nums(l)).set("r", js::nums(r)).set("v", js::nums(v)).set("w", js::nums(w));
}
template <typename T> static void do_mon(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define MO(N) if (f == #N) return mon<T>(c, out, N<T>());
    MO(PlusMonoid) MO(TimesMonoid) MO(LogicalOrMonoid) MO(LogicalAndMonoid) MO(LogicalXorMonoid) MO(LogicalXnorMonoid) MO(MinMonoid) MO(MaxMonoid)
}
template <typename T, typename S> static void semi(Val const &c, Val &out, S s)
{
    std::vector<long long> add, mult, madd, mmult; T a = val<T>(c.num("a"));
    auto am = add_monoid(s); auto mo = multiply_op(s);
    for (auto x : c.nums("bs"))
    {
        T y = val<T>(x);
        add.push_back(back(s.add(a, y))); mult.push_back(back(s.mult(a, y)));
        madd.push_back(back(am(a, y))); mmult.push_back(back(mo(a, y)));
    }
    out.set("zero", js::nums({back(s.zero()), back(am.identity())})).set("add", js::nums(add)).set("mult", js::nums(mult))
       .set("madd", js::nums(madd)).set("mmult", js::nums(mmult));
}
#define SEMIS(M) M(ArithmeticSemiring) M(MinPlusSemiring) M(MaxPlusSemiring) M(MinTimesSemiring) M(MaxTimesSemiring) M(MinMaxSemiring) \
    M(MaxMinSemiring) M(PlusMinSemiring) M(LogicalSemiring) M(AndOrSemiring) M(XorAndSemiring) M(XnorOrSemiring) \
    M(MinFirstSemiring) M(MinSecondSemiring) M(MaxFirstSemiring) M(MaxSecondSemiring)
template <typename T> static void do_semi(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define SE(N) if (f == #N) return semi<T>(c, out, N<T>());
    SEMIS(SE)
}
template <typename T, typename M, typename... S> static void limmon(Val const &c, Val &out, M m, S... ss)
{
    Val l = Val::arr(), r = Val::arr(), z = Val::arr();
    for (auto const &x : c.at("xs").a)
    {
        T y = lim<T>(x);
        l.a.push_back(unlim(m(m.identity(), y))); r.a.push_back(unlim(m(y, m.identity())));
    }
    (z.a.push_back(unlim(ss.zero())), ...);
    out.set("id", unlim(m.identity())).set("l", l).set("r", r).set("zeros", z);
}
template <typename T> static void do_limmon(Val const &c, Val &out)
{
    auto const &f = c.str("f");
    if (f == "PlusMonoid") return limmon<T>(c, out, PlusMonoid<T>(), ArithmeticSemiring<T>(), PlusMinSemiring<T>());
    if (f == "TimesMonoid") return limmon<T>(c, out, TimesMonoid<T>());
    if (f == "MinMonoid") return limmon<T>(c, out, MinMonoid<T>(), MinPlusSemiring<T>(), MinTimesSemiring<T>(), MinMaxSemiring<T>(), MinFirstSemiring<T>(), MinSecondSemiring<T>());
    if (f == "MaxMonoid") return limmon<T>(c, out, MaxMonoid<T>(), MaxPlusSemiring<T>(), MaxTimesSemiring<T>(), MaxMinSemiring<T>(), MaxFirstSemiring<T>(), MaxSecondSemiring<T>());
}
#define SMALL(f) { auto const &d = c.str("d"); if (d == "bool") f<bool>(c, out); else if (d == "i8") f<int8_t>(c, out); \
    else if (d == "u8") f<uint8_t>(c, out); else if (d == "i16") f<int16_t>(c, out); else if (d == "i32") f<int32_t>(c, out); \
    else if (d == "f64") f<double>(c, out); }
#define WIDE(f) { auto const &d = c.str("d"); if (d == "i16") f<int16_t>(c, out); else if (d == "u16") f<uint16_t>(c, out); \
    else if (d == "i32") f<int32_t>(c, out); else if (d == "u32") f<uint32_t>(c, out); else if (d == "i64") f<int64_t>(c, out); \
    else if (d == "u64") f<uint64_t>(c, out); else if (d == "f32") f<float>(c, out); else if (d == "f64") f<double>(c, out); }
HANDLER("un") SMALL(do_un)
HANDLER("bin") SMALL(do_bin)
HANDLER("mon") SMALL(do_mon)
HANDLER("semi") SMALL(do_semi)
HANDLER("limun") WIDE(do_limun)
HANDLER("limbin") WIDE(do_limbin)
HANDLER("limmon") WIDE(do_limmon)

// ---------------------------------------------------------------- operators over several types
template <typename T> struct TN;
#define TNAME(T, n) template <> struct TN<T> { static constexpr char const *name = n; };
TNAME(bool, "bool") TNAME(int8_t, "i8") TNAME(uint8_t, "u8") TNAME(int16_t, "i16") TNAME(int32_t, "i32") TNAME(double, "f64")
template <typename D1, typename D2, typename Op> static void mbin(Val const &c, Val &out, Op op)
{
    using R = decltype(op(D1(), D2()));
    std::vector<long long> r; D1 a = val<D1>(c.num("a"));
    for (auto x : c.nums("bs")) r.push_back(back(R(op(a, val<D2>(x)))));
    out.set("v", js::nums(r));
    out.set("t", Val(TN<R>::name));
}
template <typename D1, typename D2, typename D3> static void do_mbin(Val const &c, Val &out)
{
    auto const &f = c.str("f");
    bool def = c.num("def");
#define MB(N) if (f == #N) { if (def) return mbin<D1, D2>(c, out, N<D1, D2>()); return mbin<D1, D2>(c, out, N<D1, D2, D3>()); }
    BINARY(MB) ARITH(MB)
    if constexpr (std::is_integral_v<D1> && std::is_integral_v<D2> && std::is_integral_v<D3>) { BITS(MB) }
}
template <typename D1, typename D2, typename D3, typename S> static void msemi(Val const &c, Val &out, S s)
{
    std::vector<long long> mult, mm, add, madd, zl, zr; D1 a = val<D1>(c.num("a")); D3 w = val<D3>(c.num("w"));
    for (auto x : c.nums("bs")) { mult.push_back(back(s.mult(a, val<D2>(x)))); mm.push_back(back(multiply_op(s)(a, val<D2>(x)))); }
    for (auto x : c.nums("cs"))
    {
        D3 y = val<D3>(x);
        add.push_back(back(s.add(w, y))); madd.push_back(back(add_monoid(s)(w, y)));
        zl.push_back(back(s.add(s.zero(), y))); zr.push_back(back(s.add(y, add_monoid(s).identity())));
    }
    out.set("mult", js::nums(mult)).set("mmult", js::nums(mm)).set("add", js::nums(add)).set("madd", js::nums(madd))
       .set("zl", js::nums(zl)).set("zr", js::nums(zr));
}
template <typename D1, typename D2, typename D3> static void do_msemi(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define MS(N) if (f == #N) return msemi<D1, D2, D3>(c, out, N<D1, D2, D3>());
    SEMIS(MS)
}
template <typename D1, typename D2, typename Op> static void mun(Val const &c, Val &out, Op op)
{
    std::vector<long long> r;
    for (auto x : c.nums("xs")) r.push_back(back(D2(op(val<D1>(x)))));
    out.set("v", js::nums(r));
}
template <typename D1, typename D2> static void do_mun(Val const &c, Val &out)
{
    auto const &f = c.str("f");
#define MU(N) if (f == #N) return mun<D1, D2>(c, out, N<D1, D2>());
    UNARY(MU) MU(MultiplicativeInverse)
    if constexpr (std::is_integral_v<D1> && std::is_integral_v<D2>) { MU(BitwiseNot) }
}
#define TRIPLES(M) M(int32_t, double, double) M(double, int32_t, bool) M(uint8_t, int16_t, int32_t) M(int8_t, int32_t, bool) \
    M(bool, int32_t, int32_t) M(double, double, int32_t) M(int32_t, double, bool) M(int32_t, int8_t, double) M(int16_t, uint8_t, int8_t) \
    M(int32_t, int32_t, uint8_t) M(bool, double, double) M(double, bool, double)
static std::string tkey(Val const &v) { std::string r; for (auto const &x : v.a) r += x.s + " "; return r; }
template <typename... T> static std::string tkeyof() { std::string r; ((r += std::string(TN<T>::name) + " "), ...); return r; }
HANDLER("mbin")
{
    auto k = tkey(c.at("d"));
#define T3(A, B, C) if (k == tkeyof<A, B, C>()) return do_mbin<A, B, C>(c, out);
    TRIPLES(T3)
}
HANDLER("msemi")
{
    auto k = tkey(c.at("d"));
#define S3(A, B, C) if (k == tkeyof<A, B, C>()) return do_msemi<A, B, C>(c, out);
    TRIPLES(S3)
}
#define PAIRS(M) M(int32_t, double) M(double, int32_t) M(double, bool) M(int8_t, int32_t) M(uint8_t, int16_t) M(int32_t, int8_t) M(bool, int32_t) M(int16_t, bool)
HANDLER("mun")
{
    auto k = tkey(c.at("d"));
#define P2(A, B) if (k == tkeyof<A, B>()) return do_mun<A, B>(c, out);
    PAIRS(P2)
}

// ---------------------------------------------------------------- utilities
template <typename T> static Vector<T> sparse(Val const &v)
{
    Vector<T> r(v.a.size());
    for (size_t i = 0; i < v.a.size(); ++i) if (v.a[i].i != NONE) r.setElement(i, T(v.a[i].i));
    return r;
}
HANDLER("diag")
{
    if (c.str("d") == "f64") FIELD("m", return mat(diag<Matrix<double>>(sparse<double>(c.at("v")))););
    else FIELD("m", return mat(diag<Matrix<int>>(sparse<int>(c.at("v")))););
}
HANDLER("ident")
{
    IndexType n = c.num("n");
    if (c.str("d") == "f64")
    {
        FIELD("m", return mat(scaled_identity<Matrix<double>>(n, double(c.num("s")))););
        FIELD("one", return mat(scaled_identity<Matrix<double>>(n)););
    }
    else
    {
        FIELD("m", return mat(scaled_identity<Matrix<int>>(n, int(c.num("s")))););
        FIELD("one", return mat(scaled_identity<Matrix<int>>(n)););
    }
}
template <typename T> static void do_split(Val const &c, Val &out, Val &err)
{
    auto m = matrix<T>(c.at("g"));
    Matrix<T> L(m.nrows(), m.ncols()), U(m.nrows(), m.ncols());
    FIELD("l", split(m, L, U); return mat(L););
    FIELD("u", return mat(U););
}
HANDLER("split") { if (c.str("d") == "f64") do_split<double>(c, out, err); else do_split<int>(c, out, err); }
template <typename T> static void do_norm(Val const &c, Val &out, Val &err)
{
    FIELD("rows", auto m = matrix<T>(c.at("g")); normalize_rows(m); return mat(m, 1e6););
    FIELD("cols", auto m = matrix<T>(c.at("g")); normalize_cols(m); return mat(m, 1e6););
}
HANDLER("norm") { do_norm<double>(c, out, err); }
HANDLER("range")
{
    IndexType b = c.num("b"), e = c.num("e"), n = c.num("n");
    IndexSequenceRange s(b, e);
    FIELD("iter", Val r = Val::arr(); size_t k = 0; for (auto i : s) { if (++k > 10000) break; r.a.emplace_back((long long)i); } return r;);
    FIELD("at", Val r = Val::arr(); for (IndexType i = 0; i < s.size() && i < 10000; ++i) r.a.emplace_back((long long)s[i]); return r;);
    FIELD("size", return one(s.size()););
    FIELD("empty", return one(s.empty()););
    FIELD("gather", if (b == e) return Val::arr();
        Vector<int> u(n), w(e - b); for (IndexType i = 0; i < n; ++i) u.setElement(i, 10 * i);
        extract(w, NoMask(), NoAccumulate(), u, s); return vec(w););
    FIELD("scatter",
        Vector<int> w(n); for (IndexType i = 0; i < n; ++i) w.setElement(i, 7);
        if (b != e) { Vector<int> u(e - b); for (IndexType i = 0; i < e - b; ++i) u.setElement(i, 100 + i);
                      assign(w, NoMask(), NoAccumulate(), u, s); }
        return vec(w););
}
