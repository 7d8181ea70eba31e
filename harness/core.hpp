// Shared by every translation unit of the driver: the typed store of live
// GraphBLAS containers, run-time operators, and small dispatch helpers.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <map>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#include <graphblas/graphblas.hpp>
#include "json.hpp"

using js::Val;

static constexpr long long NONE  = -999999;
static constexpr int       SCALE = 16;

//---------------------------------------------------------------- domains
template <class T> struct Dom;
template <> struct Dom<bool>    { static constexpr char const *n = "bool"; };
template <> struct Dom<int8_t>  { static constexpr char const *n = "i8"; };
template <> struct Dom<uint8_t> { static constexpr char const *n = "u8"; };
template <> struct Dom<int16_t> { static constexpr char const *n = "i16"; };
template <> struct Dom<int32_t> { static constexpr char const *n = "i32"; };
template <> struct Dom<int64_t> { static constexpr char const *n = "i64"; };
template <> struct Dom<double>  { static constexpr char const *n = "f64"; };
// An "i64" value v is v * BIG in the library: it does not survive a detour
// through a 32-bit integer or through a float.
static constexpr long long BIG = (1LL << 32) + 1;

struct Inexact : std::runtime_error { Inexact() : std::runtime_error("inexact") {} };

template <class T> long long enc(T v)
{
    if constexpr (std::is_same_v<T, double>)
    {
        double s = v * SCALE, r = std::nearbyint(s);
        if (!(s == r) || std::fabs(r) > 1e8) return 777777777;   // not representable here
        return (long long)r;
    }
    else if constexpr (std::is_same_v<T, int64_t>)
        return v % BIG ? 777777777 : (long long)(v / BIG);
    else return (long long)v;
}
template <class T> T dec(long long v)
{
    if constexpr (std::is_same_v<T, double>) return (double)v / SCALE;
    else if constexpr (std::is_same_v<T, int64_t>) return v * BIG;
    else return (T)v;
}

//---------------------------------------------------------------- operators
enum BinCode { B_plus, B_minus, B_times, B_min, B_max, B_first, B_second, B_lor, B_land,
               B_lxor, B_lxnor, B_eq, B_ne, B_gt, B_lt, B_ge, B_le, B_lin, B_N };
inline char const *const bin_names[] = { "plus","minus","times","min","max","first","second",
    "lor","land","lxor","lxnor","eq","ne","gt","lt","ge","le","lin" };
inline int bin_code(std::string const &s)
{
    for (int k = 0; k < B_N; ++k) if (s == bin_names[k]) return k;
    throw std::runtime_error("operator " + s);
}
enum UnCode { U_ident, U_ainv, U_abs, U_lnot, U_inc, U_zero, U_mod5, U_N };
inline char const *const un_names[] = { "ident","ainv","abs","lnot","inc","zero","mod5" };
inline int un_code(std::string const &s)
{
    for (int k = 0; k < U_N; ++k) if (s == un_names[k]) return k;
    throw std::runtime_error("unary operator " + s);
}

template <class C> C bin_fun(int f, C a, C b)
{
    switch (f)
    {
    case B_plus: return a + b;
    case B_minus: return a - b;
    case B_times: return a * b;
    case B_min: return b < a ? b : a;
    case B_max: return a < b ? b : a;
    case B_first: return a;
    case B_second: return b;
    case B_lor: return C(a != 0 || b != 0);
    case B_land: return C(a != 0 && b != 0);
    case B_lxor: return C((a != 0) != (b != 0));
    case B_lxnor: return C((a != 0) == (b != 0));
    case B_eq: return C(a == b);
    case B_ne: return C(a != b);
    case B_gt: return C(a > b);
    case B_lt: return C(a < b);
    case B_ge: return C(a >= b);
    case B_le: return C(a <= b);
    case B_lin: return 2 * a + b;
    }
    abort();
}

template <class D1, class D2, class D3> struct RtBin
{
    using first_argument_type = D1;
    using second_argument_type = D2;
    using result_type = D3;
    int f;
    D3 operator()(D1 a, D2 b) const
    {
        if constexpr (std::is_same_v<D3, int64_t>)
            return dec<D3>(bin_fun<long long>(f, enc<D1>(a), enc<D2>(b)));
        else
        {
        using C = std::conditional_t<std::is_same_v<D1, double> || std::is_same_v<D2, double>,
                                     double, long long>;
        return static_cast<D3>(bin_fun<C>(f, (C)a, (C)b));
        }
    }
};

template <class D1, class D2> struct RtUn
{
    using result_type = D2;
    int f;
    D2 operator()(D1 v) const
    {
        using C = std::conditional_t<std::is_same_v<D1, double>, double, long long>;
        C a = (C)v, r = 0;
        if constexpr (std::is_same_v<D1, int64_t>) a = enc<D1>(v);
        switch (f)
        {
        case U_ident: r = a; break;
        case U_ainv: r = -a; break;
        case U_abs: r = a < 0 ? -a : a; break;
        case U_lnot: r = C(a == 0); break;
        case U_inc: r = a + 1; break;
        case U_zero: r = 0; break;
        case U_mod5:
            if constexpr (std::is_same_v<C, double>) r = std::fmod(a, 5.0);
            else r = a % 5;
            break;
        }
        if constexpr (std::is_same_v<D2, int64_t>) return dec<D2>((long long)r);
        else return static_cast<D2>(r);
    }
};

template <class D> D rt_identity(int f)
{
    using L = std::numeric_limits<D>;
    if constexpr (std::is_same_v<D, int64_t>)
        return dec<D>(f == B_min ? 1000000000 : f == B_max ? -1000000000 :
                      f == B_plus || f == B_lor || f == B_lxor ? 0 : 1);
    switch (f)
    {
    case B_plus: case B_lor: case B_lxor: return D(0);
    case B_times: case B_land: case B_lxnor: case B_eq: return D(1);
    case B_min: return L::has_infinity ? L::infinity() : L::max();
    case B_max: return L::has_infinity ? -L::infinity() : L::lowest();
    }
    abort();
}

template <class D> struct RtMonoid
{
    using result_type = D;
    int f;
    D identity() const { return rt_identity<D>(f); }
    D operator()(D a, D b) const { return RtBin<D, D, D>{f}(a, b); }
};

template <class D1, class D2, class D3> struct RtSemiring
{
    using first_argument_type = D1;
    using second_argument_type = D2;
    using result_type = D3;
    int fa, fm;
    D3 add(D3 a, D3 b) const { return RtBin<D3, D3, D3>{fa}(a, b); }
    D3 mult(D1 a, D2 b) const { return RtBin<D1, D2, D3>{fm}(a, b); }
    D3 zero() const { return rt_identity<D3>(fa); }
};

//---------------------------------------------------------------- typesets
// C,M,A,B: element types of output, mask, first and second operand.
// D1,D2,D3: multiply/operator domains; Q1,Q2,Q3: accumulator domains;
// U1,U2: unary operator; S: bound scalars and scalar results.
#define TYPESET(NAME, c, m, a, b, d1, d2, d3, q1, q2, q3, u1, u2, s)            \
    struct NAME { static constexpr char const *n = #NAME;                       \
        using C = c; using M = m; using A = a; using B = b;                     \
        using D1 = d1; using D2 = d2; using D3 = d3;                            \
        using Q1 = q1; using Q2 = q2; using Q3 = q3;                            \
        using U1 = u1; using U2 = u2; using S = s; };
TYPESET(T_I, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t,
        int32_t, int32_t, int32_t, int32_t, int32_t, int32_t)
TYPESET(T_B, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)
TYPESET(T_U, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t,
        uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t)
TYPESET(T_X1, int32_t, double, double, int8_t, double, int32_t, double,
        int32_t, double, double, double, double, double)
TYPESET(T_X2, double, int8_t, int32_t, double, int32_t, double, double,
        double, double, double, int32_t, double, int16_t)
TYPESET(T_X3, bool, bool, uint8_t, int16_t, int32_t, int32_t, int32_t,
        bool, int32_t, int32_t, int16_t, int32_t, int32_t)
TYPESET(T_X4, int16_t, uint8_t, int8_t, uint8_t, int32_t, int32_t, int32_t,
        int32_t, int32_t, int16_t, int32_t, int16_t, int32_t)

TYPESET(T_L, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t,
        int64_t, int64_t, int64_t, int64_t, int64_t, int64_t)

//---------------------------------------------------------------- the store
template <class T> struct Bank
{
    std::map<std::string, std::unique_ptr<grb::Matrix<T>>> m;
    std::map<std::string, std::unique_ptr<grb::Vector<T>>> v;
};

struct Info { char k; std::string d; };

struct World
{
    std::tuple<Bank<bool>, Bank<int8_t>, Bank<uint8_t>, Bank<int16_t>, Bank<int32_t>,
               Bank<int64_t>, Bank<double>> banks;
    std::map<std::string, Info> info;     // id -> kind and domain

    template <class T> Bank<T> &bank() { return std::get<Bank<T>>(banks); }
    template <class T> grb::Matrix<T> &mat(std::string const &id)
    {
        auto it = bank<T>().m.find(id);
        if (it == bank<T>().m.end()) throw std::runtime_error("no matrix " + id);
        return *it->second;
    }
    template <class T> grb::Vector<T> &vec(std::string const &id)
    {
        auto it = bank<T>().v.find(id);
        if (it == bank<T>().v.end()) throw std::runtime_error("no vector " + id);
        return *it->second;
    }
    void clear()
    {
        std::apply([](auto &...b) { ((b.m.clear(), b.v.clear()), ...); }, banks);
        info.clear();
    }
};

// Call f with a value of the C++ type named by domain d.
template <class F> decltype(auto) with_dom(std::string const &d, F &&f)
{
    if (d == "bool") return f(bool{});
    if (d == "i8") return f(int8_t{});
    if (d == "u8") return f(uint8_t{});
    if (d == "i16") return f(int16_t{});
    if (d == "i32") return f(int32_t{});
    if (d == "i64") return f(int64_t{});
    if (d == "f64") return f(double{});
    throw std::runtime_error("domain " + d);
}

//---------------------------------------------------------------- dispatch
inline grb::OutputControlEnum outp_of(Val const &c)
{ return c.str("z") == "replace" ? grb::REPLACE : grb::MERGE; }

template <class TS, class F> void with_mmask(World &w, Val const &c, F &&f)
{
    std::string const &k = c.str("mk");
    if (k == "none") { f(grb::NoMask()); return; }
    auto &m = w.mat<typename TS::M>(c.str("m"));
    if (k == "val") f(m);
    else if (k == "comp") f(grb::complement(m));
    else if (k == "str") f(grb::structure(m));
    else if (k == "scomp") f(grb::complement(grb::structure(m)));
    else throw std::runtime_error("mask kind");
}
template <class TS, class F> void with_vmask(World &w, Val const &c, F &&f)
{
    std::string const &k = c.str("mk");
    if (k == "none") { f(grb::NoMask()); return; }
    auto &m = w.vec<typename TS::M>(c.str("m"));
    if (k == "val") f(m);
    else if (k == "comp") f(grb::complement(m));
    else if (k == "str") f(grb::structure(m));
    else if (k == "scomp") f(grb::complement(grb::structure(m)));
    else throw std::runtime_error("mask kind");
}
template <class TS, class F> void with_acc(Val const &c, F &&f)
{
    std::string const &k = c.at("acc").str("f");
    if (k == "no") f(grb::NoAccumulate());
    else f(RtBin<typename TS::Q1, typename TS::Q2, typename TS::Q3>{bin_code(k)});
}
template <class M, class F> void with_view(M const &m, bool t, F &&f)
{
    if (t) f(grb::transpose(m)); else f(m);
}
inline grb::IndexArrayType idx(Val const &a)
{
    grb::IndexArrayType r;
    for (auto const &v : a.a) r.push_back((grb::IndexType)v.i);
    return r;
}
template <class F> void with_ix(Val const &ix, F &&f)
{
    std::string const &k = ix.str("k");
    if (k == "all") f(grb::AllIndices());
    else if (k == "list") f(idx(ix.at("v")));
    else f(grb::IndexSequenceRange((grb::IndexType)ix.num("b"), (grb::IndexType)ix.num("e")));
}
template <class TS> auto mulop(Val const &c)
{
    return RtBin<typename TS::D1, typename TS::D2, typename TS::D3>{
        bin_code(c.at("mul").str("f"))};
}
template <class TS> auto semiring(Val const &c)
{
    return RtSemiring<typename TS::D1, typename TS::D2, typename TS::D3>{
        bin_code(c.at("add").str("f")), bin_code(c.at("mul").str("f"))};
}

// Rows and columns: both "all", or index lists/ranges (a mixture goes through
// lists) -- keeps the number of instantiations down; "all"/list mixtures are
// produced when both kinds differ.
template <class F> void with_ix2(Val const &c, F &&f)
{
    std::string const &r = c.at("ri").str("k"), &k = c.at("ci").str("k");
    auto rng = [](Val const &x) {
        return grb::IndexSequenceRange((grb::IndexType)x.num("b"), (grb::IndexType)x.num("e")); };
    if (r == "all")
    {
        if (k == "all") f(grb::AllIndices(), grb::AllIndices());
        else if (k == "list") f(grb::AllIndices(), idx(c.at("ci").at("v")));
        else throw std::runtime_error("index mix");
    }
    else if (r == "list")
    {
        if (k == "all") f(idx(c.at("ri").at("v")), grb::AllIndices());
        else if (k == "list") f(idx(c.at("ri").at("v")), idx(c.at("ci").at("v")));
        else throw std::runtime_error("index mix");
    }
    else if (k == "rng") f(rng(c.at("ri")), rng(c.at("ci")));
    else throw std::runtime_error("index mix");
}

// An executor performs one command; it may set *s to the scalar returned.
using Exec = std::function<void(World &, Val const &, long long &)>;
std::map<std::string, Exec> &registry();            // key: op + "/" + typeset
struct Register
{
    Register(std::string const &op, std::string const &ts, Exec e)
    { registry()[op + "/" + ts] = std::move(e); }
};
